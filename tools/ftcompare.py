"""Compares the reference interpreter with libfreetype's engine version 35
(development only: ftdump DIR N SEED; ftcompare.py DIR)."""
import ctypes as C, json, os, sys
os.environ["FREETYPE_PROPERTIES"] = "truetype:interpreter-version=35"
ft = C.CDLL("libfreetype.so.6")
lib = C.c_void_p()
assert ft.FT_Init_FreeType(C.byref(lib)) == 0
ft.FT_New_Face.argtypes = [C.c_void_p, C.c_char_p, C.c_long, C.c_void_p]
ft.FT_Set_Char_Size.argtypes = [C.c_void_p, C.c_long, C.c_long, C.c_uint, C.c_uint]
ft.FT_Load_Glyph.argtypes = [C.c_void_p, C.c_uint, C.c_int32]
ft.FT_Done_Face.argtypes = [C.c_void_p]
def at(p, off, t): return t.from_address(p + off).value
n = bad = err = 0
out = []
for q in json.load(open(sys.argv[1] + "/all.json")):
    for g in q["Glyphs"] or []:
        face = C.c_void_p() # a new one each time: libfreetype keeps state
        e = ft.FT_New_Face(lib, q["File"].encode(), 0, C.byref(face))
        if e:
            print("face", q["File"], e); err += 1; continue
        e = ft.FT_Set_Char_Size(face, q["Scale"], q["Scale"], 72, 72)
        if not g["Points"]:
            continue # libfreetype runs no program on a composite glyph without points
        n += 1
        e = ft.FT_Load_Glyph(face, g["Index"], (1 << 3) | (1 << 7) | (1 << 15))  # NO_BITMAP, PEDANTIC, NO_AUTOHINT
        if e:
            err += 1
            out.append(("ERR", hex(e), q["File"], q["Scale"], "fpgm", q["FPGM"], "prep", q["Prep"], "glyph", g["Index"], g["Program"]))
            continue
        slot = at(face.value, 152, C.c_void_p)
        adv = at(slot, 128, C.c_long)
        nc, np = at(slot, 200, C.c_short), at(slot, 202, C.c_short)
        pts, tags, cont = at(slot, 208, C.c_void_p), at(slot, 216, C.c_void_p), at(slot, 224, C.c_void_p)
        P = []
        for i in range(np):
            P.append([at(pts, 16 * i, C.c_long), at(pts, 16 * i + 8, C.c_long), at(tags, i, C.c_ubyte) & 1])
        W = g["Points"] or []
        msg = ""
        if P != W:
            if len(P) != len(W):
                msg = "%d points, reference %d" % (len(P), len(W))
            else:
                i = [i for i in range(np) if P[i] != W[i]][0]
                msg = "point %d: freetype %s reference %s" % (i, P[i], W[i])
        elif adv != g["Advance"]:
            msg = "advance: freetype %d reference %d" % (adv, g["Advance"])
        if msg:
            bad += 1
            out.append(("DIFF", msg, q["File"], q["Scale"], "cvt", q["CVT"], "fpgm", q["FPGM"], "prep", q["Prep"], "glyph", g["Index"], g["Program"]))
        ft.FT_Done_Face(face)
out.sort(key=lambda o: len(str(o[-1])) + len(str(o[-4])) + len(str(o[-6])))
for o in out[:int(sys.argv[2]) if len(sys.argv) > 2 else 15]:
    print(*o)
print(n, "loads", bad, "differ", err, "errors")
