"""For every instruction of a program that accesses memory: how the address is computed.  From objdump's listing."""

import re, subprocess

SYMS = ("ct_group", "ct_begin", "ct_stop", "ct_end", "ct_drop")


def markers(exe):
    nm = subprocess.run(["nm", exe], capture_output=True, text=True).stdout
    s = {p[2]: p[0] for p in (l.split() for l in nm.splitlines()) if len(p) == 3}
    # a Thumb function's symbol is its address; bit 0 is not part of it
    return [format(int(s[x], 16) & ~1, "x") for x in SYMS]


def code_range(exe, objs):
    """Addresses of the markers and of the implementation's functions."""
    names = set(SYMS)
    for o in objs:
        for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in "tT" and not p[2].startswith("$"):
                names.add(p[2])
    lo, hi = 1 << 62, 0
    for l in subprocess.run(["nm", "-S", exe], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if p[-1] in names and len(p) >= 3 and p[-2] in "tTwW":
            a = int(p[0], 16) & ~1
            lo, hi = min(lo, a), max(hi, a + (int(p[1], 16) if len(p) == 4 else 64))
    return lo, hi


def mem_functions(exe):
    """Ranges of the C library's functions that an implementation might call."""
    res = []
    for l in subprocess.run(["nm", "-S", exe], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if len(p) == 4 and p[3] in ("memcpy", "memset", "memcmp", "memmove", "bcmp", "strncmp", "__aeabi_memcpy"):
            a = int(p[0], 16) & ~1
            res.append(f"0x{a:x}+0x{int(p[1], 16):x}")
    return sorted(set(res))




def x86(exe, out):
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout
    n = 0
    with open(out, "w") as f:
        for l in d.splitlines():
            m = re.match(r"^\s*([0-9a-f]+):\t(.*)$", l)
            if not m:
                continue
            pc, ins = m.group(1), m.group(2).split("#")[0].strip()
            words = ins.split(None, 1)
            op = words[0] if words else ""
            while op in ("bnd", "notrack", "lock", "data16", "cs", "ds", "es", "rep", "repz", "repnz") and len(words) > 1:
                words = words[1].split(None, 1)
                op = words[0]
            if op.startswith(("lea", "nop", "endbr")):
                continue
            k = re.search(r"\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)", ins)
            rows = []
            if k and not re.match(r"^(movs|stos|lods|cmps|scas)[bwlq]?$", op):
                rows.append(((k.group(1) or "%-")[1:], (k.group(2) or "%-")[1:], k.group(3) or "1"))
            elif re.match(r"^(movs|cmps)[bwlq]?$", op) and k:
                rows.append(("rsi", "rdi", "3"))
            elif re.match(r"^(stos|scas)[bwlq]?$", op) and k:
                rows.append(("rdi", "-", "1"))
            elif op.startswith(("push", "pop", "call", "ret", "leave")):
                rows.append(("rsp", "-", "1"))
            for b, x, s in rows:
                f.write(f"{pc} {b} {x} {s}\n")
                n += 1
    return n


CONDS = ["eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le"]
ALIAS = {"hs": "cs", "lo": "cc"}
COND = "(?:" + "|".join(CONDS + list(ALIAS)) + ")"
REGS = {f"r{i}": i for i in range(16)}
REGS.update(sl=10, fp=11, ip=12, sp=13, lr=14, pc=15, sb=9)


def arm(exe, out):
    d = subprocess.run(["arm-linux-gnueabi-objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout
    n = 0
    with open(out, "w") as f:
        for l in d.splitlines():
            m = re.match(r"^\s*([0-9a-f]+):\t(.*)$", l)
            if not m:
                continue
            pc, ins = m.group(1), m.group(2).split(";")[0].split("@")[0].strip()
            p = ins.split(None, 1)
            if len(p) < 2:
                continue
            op, args = re.sub(r"\.[nw]$", "", p[0]), p[1]
            k = re.match(rf"^(?:ldr|str|pld)(?:ex)?(?:b|h|sb|sh|d)?t?({COND})?$", op) or re.match(rf"^v(?:ldr|str)({COND})?(?:\.\d+)?$", op)
            base = index = -1
            shift = sub = 0
            cond = None
            if k:
                cond = k.group(1)
                a = re.search(r"\[(\w+)(?:,\s*(-?)(\w+)(?:,\s*lsl #(\d+))?)?", args)
                if not a or a.group(1) not in REGS:
                    continue
                base = REGS[a.group(1)]
                if a.group(3) and a.group(3) in REGS:
                    index, sub, shift = REGS[a.group(3)], int(a.group(2) == "-"), int(a.group(4) or 0)
                if base == 15:
                    continue
            else:
                k = re.match(rf"^v?(?:ldm|stm)(?:ia|ib|da|db|fd|fa|ed|ea)?({COND})?$", op)
                if k:
                    cond = k.group(1)
                    base = REGS.get(re.match(r"\w+", args).group(0), -1)
                    if base < 0:
                        continue
                else:
                    k = re.match(rf"^v?(?:push|pop)({COND})?$", op)
                    if not k:
                        continue
                    cond, base = k.group(1), 13
            cond = CONDS.index(ALIAS.get(cond, cond)) if cond else 14
            f.write(f"{pc} {base} {index} {shift} {sub} {cond}\n")
            n += 1
    return n
