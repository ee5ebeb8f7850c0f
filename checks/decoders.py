"""C14, C15: obligations every decoder shares, collected over the decoder runs of C02-C13."""
from .lab import *
from . import codec, huffman, literal, qpack, frame


def parts(chk, names):
    for n, f in names:
        chk.part = n
        try:
            f(chk)
        except Broken as e:
            chk.broken.append("%s: %s" % (n, e))
            with chk.on():
                chk.undec("analysed", "%s: %s" % (n, e))
        finally:
            chk.part = ""


def literal_decode(chk):
    from .contracts import Huffman, huffman_decode_hook
    ref = []
    lab = Lab(literal.LITERAL_SOURCES, ["h_base.cpp", "h_codec.cpp"],
              hooks=Huffman().hooks() + [(r"bnl::http3::qpack::huffman::decode", huffman_decode_hook(ref))])
    ref.append(lab)
    chk.use(lab.eng)
    literal.decode_part(chk, lab)


def qpack_decode(chk):
    lab = qpack.make_lab(decode=True)
    chk.use(lab.eng)
    qpack.decode_part(chk, lab)
    qpack.decode_index(chk, lab, "memory", some=True)


def frames(run):
    def f(chk):
        lab = frame.make_lab()
        chk.use(lab.eng)
        frame.spread(chk, lab, run)
    return f


SINGLE = [("varint", codec.C02), ("prefix integer", codec.C04), ("Huffman", huffman.C07), ("literal", literal_decode),
          ("frame", frames(frame.decode_input))]


def C14(chk):
    chk.focus = "memory"
    parts(chk, SINGLE + [("frame type", frames(frame.peek_input)), ("QPACK", qpack_decode)])
    chk.focus = None
    return chk.finish(3000, "interval, bounds and typestate analysis of every memory access, shift, table index and internal "
                            "assertion on all paths of the decoders",
                      expl="Every decoder run of C02, C04, C07, C09, C10, C12 and C13 (inputs partitioned by specification class, "
                           "sizes, positions and content symbolic); an abnormal exit of the interpreter is a refuted obligation.")


def C15(chk):
    chk.focus = "retry"
    parts(chk, SINGLE + [("frame type", frames(frame.peek_input))])
    chk.focus = None
    return chk.finish(3000, "symbolic position tracking: after every error exit the input's size and i-th byte are those before the "
                            "item, after every success those after it",
                      expl="All error and success exits of the single-item decoders in all four containers.")
