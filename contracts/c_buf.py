"""P06: communication buffers."""
from enga import *
TU = "buffers"
SIZES = {"double": 1, "vec1": 1, "vec2": 2, "vec3": 3, "vec6": 6, "ivec2": 2, "ivec3": 3, "ivec4": 4, "mat1": 1, "mat2": 4, "mat3": 9, "mat6": 36, "ev2": 12, "ev3": 40}
class RT(ContractA):
    """pack two values one after the other, unpack them again"""
    tu = TU
    def __init__(self, k): self.k = k; self.n = SIZES[k]; self.fn = "h_" + k; self.name = "roundtrip." + k
    def setup(self, S):
        n = self.n
        S.array("a", n); S.array("b", n); S.out("buf", 2 * n); S.out("oa", n); S.out("ob", n); S.iout("sz", 5)
    def post(self, S, P):
        v, sz = S.v, P.arr("sz")
        return {"sizes reported agree with what is used": [x == self.n for x in sz],
                "first value comes back": [x - y for x, y in zip(P.arr("oa"), v["a"])], "second value comes back": [x - y for x, y in zip(P.arr("ob"), v["b"])],
                "buffer holds exactly the two values": [sum_(P.arr("buf")) - sum_(v["a"]) - sum_(v["b"])]}
def sum_(l):
    s = l[0]
    for x in l[1:]: s = s + x
    return s
class Acc(ContractA):
    tu = TU
    def __init__(self, D): self.n = {2: 12, 3: 40}[D]; self.fn = f"h_acc{D}"; self.name = f"vertexdata{D}d.accumulate"
    def setup(self, S):
        for x in "ab": S.array(x, self.n)
        for x in "op": S.out(x, self.n)
    def post(self, S, P):
        v = S.v
        return {"copy": [x - y for x, y in zip(P.arr("o"), v["a"])], "sum": [x - y - z for x, y, z in zip(P.arr("p"), v["a"], v["b"])]}
def contracts_P06(): return [RT(k) for k in SIZES] + [Acc(2), Acc(3)]
ENTRY = sorted({c.fn for c in contracts_P06()})
RT.group = Acc.group = ENTRY
