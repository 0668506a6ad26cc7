"""Large and unusual values: long sequences, long strings and keys, many shared objects, deep nesting."""
import random
from catalog import CAT
T = CAT.by_cpp
def I(i): return {"i": str(i)}
def S(b): return {"h": (b if isinstance(b, bytes) else b.encode()).hex()}
ESC = "a\"\\/\b\f\n\r\t\x00\x1f\x7fé中\U0001f600"

def cases(seed, scale=1):
    """(type, value) pairs."""
    r = random.Random(f"stress{seed}"); out = []
    def add(cpp, v):
        t = T.get(cpp)
        if t is not None and t.id in CAT.fam: out.append((t, v))
    for n in (255, 256, 257, 1000 * scale): add("std::vector<int>", [I(r.randint(-2**31, 2**31 - 1)) for _ in range(n)])
    for n in (64, 65, 300): add("std::vector<bool>", [r.random() < .5 for _ in range(n)])
    add("std::set<int>", [I(i * 3 - 400) for i in range(300)])
    add("std::vector<std::string>", [S("s%d" % i + "x" * (i % 40)) for i in range(200)])
    for n in (15, 16, 22, 23, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 9000 * scale):
        add("std::string", S("".join(r.choice(ESC) for _ in range(n)))); add("std::string", S("x" * n))
    for k in range(0, 40): add("std::string", S("y" * k + r.choice(["\"", "\\", "\x01", "\x1f", "\x00", "é", "\U0001f600"]) + "z" * (39 - k)))
    for n in (60, 61, 62, 63, 1000, 3000): add("persistence::byte_vector", {"h": bytes(r.randrange(256) for _ in range(n)).hex()})
    for n in (1, 10, 11, 100, 101, 300): add("std::map<std::string, int>", sorted([[S("key%d" % i), I(i)] for i in range(n)], key=lambda e: bytes.fromhex(e[0]["h"])))
    add("std::map<std::string, std::string>", sorted([[S("k" * n), S("v" * n)] for n in (0, 1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 257, 1000)], key=lambda e: bytes.fromhex(e[0]["h"])))
    add("std::unordered_map<std::string, std::string>", [[S("u%d" % i), S("v" * i)] for i in range(120)])
    # many shared objects, references over decimal boundaries of the index
    def leaf(i, n): return {"p": i, "v": [I(n)]}
    for n in (9, 10, 11, 12, 100, 101, 130, 280 * scale):
        o = [leaf(i + 1, i) for i in range(n)]
        add("std::vector<std::shared_ptr<Leaf>>", o + [r.choice(o) for _ in range(n // 2)] + [o[0], o[-1], o[n // 2]])
        if n > 150: continue
        m = sorted([[S("k%d" % i), o[i]] for i in range(n)] + [[S("r%d" % i), r.choice(o)] for i in range(n // 2)], key=lambda e: bytes.fromhex(e[0]["h"]))
        add("std::map<std::string, std::shared_ptr<Leaf>>", m)
    same = [leaf(i + 1, 7) for i in range(20)]      # equal but distinct
    add("std::vector<std::shared_ptr<Leaf>>", same + same)
    add("std::vector<std::shared_ptr<int>>", [{"p": 1 + i % 13, "v": I(5)} for i in range(40)])
    add("std::vector<std::shared_ptr<std::string>>", [{"p": 1 + i % 11, "v": S("same")} for i in range(30)])
    lk = ["p" * 40 + "/" + "q" * 40, "~" * 30, "", "/" * 20, "é" * 30, "plain" * 30, "a\x00b", "\"" * 10, "\\" * 10, "\n\t"]
    o = [leaf(i + 1, i) for i in range(len(lk))]
    add("std::map<std::string, std::vector<std::shared_ptr<Leaf>>>", sorted([[S(k), [x, x, o[0]]] for k, x in zip(lk, o)], key=lambda e: bytes.fromhex(e[0]["h"])))
    # nesting
    def g(i, kids, named): return {"p": i, "v": [I(i), kids, named]}
    n = g(1, [], [])
    chain = n
    for k in range(2, 13): chain = g(k, [n, chain] if k % 2 else [chain], [[S("n/%d" % k), chain]] if k % 3 == 0 else [])
    if len(str(chain)) < 400000: add("std::shared_ptr<GNode>", chain)
    d = []
    for _ in range(15): d = [[d]] if d == [] else [[d]]
    deep = [[]]
    for _ in range(14): deep = [[deep]]
    add("Deep", deep)
    tr = [I(0), []]
    for k in range(14): tr = [I(k), [[I(-k), []], tr]]
    add("Tree", tr)
    ls = [I(0), []]
    for k in range(30): ls = [I(k), [{"p": 1, "v": ls}]]
    add("ListNode", ls)
    return out
