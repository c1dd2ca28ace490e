"""Small programs, all of them.

For each property a few sets of source lines; every sequence of so many of
them, between a fixed beginning and end, is a program.  Where there are too
many for the time there is, as many as there is time for are drawn from them.
"""

import itertools

SMALL = {
    "C01": [
        ("equations", [" org $fe"], ["a equ b", "b equ c+1", "c equ *", "d equ a-c", " lda a", " rmb b-c", " lda d,x", "b", "c equ a", " fcb a,b"], 4, [" fdb a,b,c", "zz"]),
        ("growing", [" org $80", " setdp 0"], [" lda e", " lda f,pcr", "e", "f", " rmb 120", " rmb 3", " org e", " bra f"], 4, ["e equ f+2", "f"]),
    ],
    "C03": [
        ("pages", [], [" setdp 0", " setdp 1", " setdp -1", " section \"a\"", " section \"b\"", " lda $0101", " sta $0002", " inc <$0102", " ldd >$0003", " lda q", " code"], 3, ["q equ $107"]),
        ("offsets", [" org $1000"], ["x1 equ 15", " lda x1,x", " leau x2,y", " ldx [x1,s]", " stb <x2,u", "x2 equ -17", "x1 equ -16", " lda x1,pc", " lda x1,pcr", " std [x2]"], 3, ["x1 equ 200", "x2 equ 0"]),
    ],
    "C04": [
        ("branches", [" org $1000"], [" bra l", " lbsr l", " leax l,pcr", "l", " rmb 124", " rmb 2", " lda [l,pcr]", " bne m", " org *+1", " rmb -3"], 4, ["m nop", "l"]),
    ],
    "C06": [
        ("nests", [], [" if 0", " if 1", " elsif 0", " elsif 1", " else", " endif", " fcb 1"], 5, [" fcb 9"]),
        ("undefined", ["k equ 1"], [" if u", " if k", " elsif u", "u equ 1", " else", " endif", " fcb 1", " fcb u", " if 1/0"], 4, [" fcb 9"]),
        ("across", ["m macro", " if \\1", " fcb 3", " endm"], [" m 0", " m 1", " if 0", " else", " endif", " fcb 4", " include \"i.s\"", " elsif 1"], 4, [" fcb 9"]),
    ],
    "C07": [
        ("shapes", [], ["m macro", "n macro", " endm", " m", " n 1,2", " fcb \\1", " fcb 5", " m \\2", "\\1"], 5, [" fcb 9"]),
        ("calls", ["m macro", " fcb \\1+1", " fdb \\2", " endm", "n macro", " m \\2,\\1", " fcb \\1", " endm"], [" m 1,2", " n 3,4", " n m", " m a", " m ,6", "a equ 7", "n macro", " endm", " n \\1,5", "o macro", " o 1,2"], 4, [" fcb 9"]),
    ],
    "C08": [
        ("nearest", [" org $100"], ["1", "2", "1 nop", " fdb 1B", " fdb 1F", " bra 2F", " section \"s\"", " section \"t\"", "! nop"], 4, ["1", "2 nop", " bra <"]),
        ("in-macros", ["m macro", " fdb 1B", "1 fdb 1F", " endm"], [" m", "1", " fdb 1F", " fdb 1B", " include \"l.s\"", " if 0", " endif", "9 fdb 9B", " section \"s\""], 4, ["1", " nop"]),
    ],
    "C09": [
        ("names", [], ["a", "a equ 1", "a set 2", "a set a+1", " fdb a", "b equ a", " export a", "A equ 5", " fdb A,b", " if a"], 4, [" fcb 9", " endif"]),
        ("places", [], ["a", "a equ *", "a set *", " org a", " rmb 1", " fdb a", " put 5", " section \"s\"", "a nop", "m macro", " endm"], 4, [" fcb 9"]),
    ],
    "C10": [
        ("placed", [], [" org $10", " put $20", " org *+2", " section \"a\"", " section \"b\"", " rmb 2", " align 4", " fcb 1", "l fdb l", " put *"], 4, [" fdb *"]),
        ("sections", [], [" section \"a\"", " code", " data", " org $40", " put $80", " fcb 1", " rmb 3", " section \"a\"", " align 8,255"], 5, [" fcb 2", " section \"new\"", " fdb *"]),
    ],
    "C11": [
        ("pieces", [], [" org 4", " org 0", " put 9", " fcb 1", " fdb 2", " rmb 1", " end 7", " section \"a\"", " put -1", " org $fffe"], 4, []),
    ],
    "C12": [
        ("pieces", [], [" org 1", " put 2", " fcb 1", " fdb 2", " rmb 1", " rmb -1", " section \"a\"", " section \"b\"", " org 4"], 5, [" fcb 3"]),
    ],
    "C14": [
        ("lines", ["m macro", " fcb \\1", "", " endm"], [" fcb 1", "a equ 5", "b nop", " if 0", " if 1", " else", " endif", " m 3", " rmb 2", " org $1234", " include \"i.s\"", "* text", "c", " put $80", " end", " zmb 9", "n macro", " endm"], 3, [" fcb 9"]),
    ],
    "C16": [
        ("mistakes", [], [" fcb \"s\",", " fdb nosuch", " lda #256", " bra *+200", " ldd [<5,x]", "a", " if 1", " endif", " endm", " bogus", " pshs 5", " tfr a,x", " lda ,x++", " include \"no\"", " fill 1", " org", " setdp 300", " export nosuch", " end", " fcb 1/0", " ldx #", " lda <<5,pc", "a equ 1", " rmb nosuch", " nop 5", "m macro", " jmp a", " 1 2", " section x", " lda #$12345", " exg 1,2", " leax >5,y", " asl <$1234", " fcb 0*\"s\""], 2, [" nop"]),
        ("three", [], [" fdb nosuch", " bra *+200", " tfr a,x", "a", "a equ 5", " bogus", " lda >5", " if nosuch", " include \"no\"", " m", "m macro", " endm", " end", " org 65536"], 3, [" nop"]),
    ],
    "C17": [
        ("files", [" fcb 1"], [" include \"i.s\"", " include \"j.s\"", " include \"k.s\"", " end", " section \"s\"", " fdb *", "1", " fdb 1B", " include \"none\"", "i equ 5", " include \"l.s\""], 4, [" fdb *"]),
    ],
    "C19": [
        ("lines", [], [" fcb 1", "a equ 5", " if a", " endif", " lda >a", " tfr a,x", " section \"s\"", " export a", " rmb 2", " end a", "a", " fdb a"], 3, [" fcb 9"]),
    ],
}
FILES = {"i.s": " fcb 7\n", "j.s": " section \"s\"\n fdb *\n include \"i.s\"\n", "k.s": "1 fdb *\n end\n fcb 66\n", "l.s": "1 fdb 1F,1B\n org *+3\n"}

# Tokens of which all short sequences are operands
TOKENS = ["1", "2.5", "a", "x", "\"s\"", "+", "-", "*", "/", "<", "<<", ">", "==", "&&", "|", "!", "~", "?", ":", "(", ")", "[", "]", ",", "#", "1B", "$2", "'c", "x+", " "]


def programs(prop, r, most):
    """(id, lines) of about so many small programs"""
    sets = SMALL.get(prop, [])
    for name, pre, alphabet, n, post in sets:
        total = sum(len(alphabet) ** k for k in range(1, n + 1))
        share = most // len(sets)
        if total <= share:
            todo = [s for k in range(1, n + 1) for s in itertools.product(range(len(alphabet)), repeat=k)]
        else:
            # shorter ones all, as far as they are not more than half
            todo, k = [], 1
            while k < n and len(todo) + len(alphabet) ** k <= share / 2:
                todo += list(itertools.product(range(len(alphabet)), repeat=k))
                k += 1
            rest = (share - len(todo)) // (n - k + 1)
            for j in range(k, n + 1):
                todo += sorted({tuple(r.randrange(len(alphabet)) for _ in range(j)) for _ in range(rest)})
        for s in todo:
            yield "small-%s-%s" % (name, "-".join(map(str, s))), pre + [alphabet[i] for i in s] + post


def operands(r, most):
    """Operands of up to four tokens"""
    for n in (1, 2):
        for s in itertools.product(TOKENS, repeat=n):
            yield "".join(s)
    seen = set()
    while len(seen) < most:
        seen.add("".join(r.choice(TOKENS) for _ in range(r.choice((3, 3, 4, 5)))))
    yield from sorted(seen)
