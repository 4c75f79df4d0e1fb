from vf import iogen


class P24(iogen.IOCheck):
    id = "P24"
    rule = "the program reads values or lines, inside at least one in block or from the script itself"
    quick = (1000, 10)
    thorough = (41000, 10)
    ins, outs = 1, 0
    assumptions = ["a file is not read while the program has it open for writing", "standard input is not also the script",
                   "read starts at the beginning of an expression"]

    def gen(self, t):
        return iogen.item(t, 2, 1 if t.chance(1, 3) else 0)

    def nontrivial(self, it):
        x = it["text"].split(iogen.EXTRA_FUNS)[1]
        return "(in" in x or "read" in x


CHECK = P24()
