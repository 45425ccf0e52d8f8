"""Subprocess of C30: literal_eval on many texts. argv: texts.pkl results.pkl"""
import pickle
import sys


def main():
    from returnn.util.literal_py_to_pickle import literal_eval

    with open(sys.argv[1], "rb") as f:
        texts = pickle.load(f)
    res = []
    for t in texts:
        try:
            res.append(("ok", literal_eval(t)))
        except Exception as exc:
            res.append(("exc", "%s: %s" % (type(exc).__name__, exc)))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(res, f)


if __name__ == "__main__":
    main()
