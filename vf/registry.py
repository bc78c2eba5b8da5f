from . import kem, comp, prim, env, pyref, hist, buf, residue, trace, threads, endian
CHECKS = {"C01": kem.c01, "C02": kem.c02, "C03": kem.c03, "C04": kem.c04, "C05": kem.c05, "C06": kem.c06,
          "C07": pyref.c07, "C08": hist.c08, "C09": threads.c09,
          "C10": env.c10, "C11": env.c11, "C12": env.c12,
          "C13": buf.c13, "C14": residue.c14, "C15": trace.c15,
          "C16": prim.c16, "C17": prim.c17, "C18": comp.c18, "C19": comp.c19, "C20": comp.c20, "C21": endian.c21,
          "C22": pyref.c22, "C23": pyref.c23}
