from vf import iogen


class P23(iogen.IOCheck):
    id = "P23"
    rule = "the program prints, inside at least one out block"
    quick = (500, 10)
    thorough = (9000, 10)
    ins, outs = 0, 1
    assumptions = ["every write goes through the interpreter (no other writer of the same file)", "files are named as documented (relative to PWD, ~ and @lib)"]

    def nontrivial(self, it):
        return "(out" in it["text"].split(iogen.EXTRA_FUNS)[1]


CHECK = P23()
