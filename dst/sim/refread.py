"""Independent reading of the text model files, by the rules of their formats.

Each reader returns the content of the file, or raises Damaged when the file must
not be accepted, or Unclear when the format leaves it open.
"""
import math

EXTRAPOLATION = 5.0     # years


class Damaged(Exception):
    pass


class Unclear(Exception):
    pass


def split_lines(data):
    text = data.decode("latin-1").replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return lines


def words(line):
    if not line.isascii():
        raise Damaged("not a text")
    return line.split()


def integer(word):
    try:
        return int(word)
    except ValueError:
        raise Damaged(f"{word[:20]!r} is not an integer") from None


def number(word):
    try:
        return float(word)
    except ValueError:
        raise Damaged(f"{word[:20]!r} is not a number") from None


def finite(values):
    if not all(math.isfinite(v) for v in values):
        raise Unclear("undefined time or parameter")
    return values


def check_order(n, m, low):
    if not low <= m <= n:
        raise Damaged(f"coefficient {n} {m}")


def check_unique(keys, what=""):
    if len(set(keys)) != len(keys):
        raise Damaged(f"duplicate coefficients {what}")
    if not keys:
        raise Damaged("no coefficients")


def skip_comments(lines):
    """ Lines following the initial comments, the first one without its comment. """
    for idx, line in enumerate(lines):
        head = line.partition("#")[0].strip()
        if head:
            if not line.isascii() and head.isascii():
                raise Unclear("comment")
            return head, lines[idx + 1:]
        if not line.isascii():
            raise Unclear("comment")
    raise Damaged("no header")


def rows_of(lines):
    out = []
    for line in lines:
        row = words(line)
        if not row:
            out.append(None)
        else:
            out.append(row)
    while out and out[-1] is None:
        out.pop()
        out.append("blank")
        break
    blank = any(row is None or row == "blank" for row in out)
    return [row for row in out if row is not None and row != "blank"], blank


def read_shc(data):
    head, lines = skip_comments(split_lines(data))
    head = words(head)
    if len(head) < 5 or len(head) == 6:
        raise Damaged("incomplete header")
    nmin, nmax, ntime, _, _ = [integer(word) for word in head[:5]]
    valid = finite([number(word) for word in head[5:7]])
    if not lines:
        raise Damaged("no times")
    times = [number(word) for word in words(lines[0])]
    if len(times) != ntime or ntime < 1:
        raise Damaged("number of times")
    rows, blank = rows_of(lines[1:])
    nm, gh = [], []
    for row in rows:
        if len(row) != ntime + 2:
            raise Damaged("number of values in a row")
        nm.append((integer(row[0]), integer(row[1])))
        gh.append([number(word) for word in row[2:]])
        check_order(nm[-1][0], nm[-1][1], -nm[-1][0])
    check_unique(nm)
    degrees = [n for n, _ in nm]
    if min(degrees) < nmin or max(degrees) != nmax:
        raise Damaged("degrees do not match the header")
    finite(times)
    if blank:
        raise Unclear("blank line")
    if not valid and len(times) > 1:
        valid = [min(times), max(times)]
    return {"nm": nm, "gh": gh, "t": times, "valid": valid or [-math.inf, math.inf]}


def read_igrf(data):
    _, lines = skip_comments(split_lines(data))
    if not lines:
        raise Damaged("no times")
    head = words(lines[0])
    times = [number(word) for word in head[3:-1]]
    if not times:
        raise Damaged("no times")
    times.append(times[-1] + EXTRAPOLATION)
    rows, blank = rows_of(lines[1:])
    nm, gh = [], []
    for row in rows:
        if len(row) != len(times) + 3:
            raise Damaged("number of values in a row")
        if row[0] not in ("g", "h"):
            raise Damaged("label")
        n, m = integer(row[1]), integer(row[2])
        check_order(n, m, 1 if row[0] == "h" else 0)
        nm.append((n, m if row[0] == "g" else -m))
        vals = [number(word) for word in row[3:]]
        vals[-1] = vals[-2] + vals[-1]*EXTRAPOLATION
        gh.append(vals)
    check_unique(nm)
    finite(times)
    if blank:
        raise Unclear("blank line")
    return {"nm": nm, "gh": gh, "t": times}


def read_wmm(data):
    lines = split_lines(data)
    if not lines:
        raise Damaged("empty")
    head = words(lines[0])
    if len(head) < 3:
        raise Damaged("incomplete header")
    epoch = number(head[0])
    nm, gh, zero = [], [], []
    for idx, line in enumerate(lines[1:]):
        row = words(line)
        if len(row) == 1 and set(row[0]) == {"9"}:
            if len(row[0]) < 40:
                raise Unclear("short terminating line")
            rest = lines[idx + 2:]
            break
        if len(row) != 6:
            raise Damaged("number of values in a row")
        n, m = integer(row[0]), integer(row[1])
        if m < 0:
            raise Damaged("order")
        g, h, dg, dh = [number(word) for word in row[2:]]
        if m == 0 and (h != 0 or dh != 0):
            raise Unclear("value of no effect")
        if g == 0 and dg == 0 and h == 0 and dh == 0:
            zero.append((n, m))
            continue
        check_order(n, m, 0)
        nm.append((n, m))
        gh.append((g, h, dg, dh))
    else:
        raise Damaged("no terminating line")
    check_unique(nm)
    if any(not line.isascii() for line in rest):
        raise Unclear("after the terminating line")
    if set(zero) & set(nm) or len(set(zero)) < len(zero):
        raise Unclear("duplicate zeros")
    finite([epoch])
    out = {"nm": [], "gh": [], "t": [epoch, epoch + EXTRAPOLATION]}
    for (n, m), (g, h, dg, dh) in zip(nm, gh):
        if g != 0 or dg != 0:
            out["nm"].append((n, m))
            out["gh"].append([g, g + dg*EXTRAPOLATION])
        if m > 0 and (h != 0 or dh != 0):
            out["nm"].append((n, -m))
            out["gh"].append([h, h + dh*EXTRAPOLATION])
    return out


def _read_emm(data):
    lines = split_lines(data)
    epoch = None
    for idx, line in enumerate(lines):
        if not line.isascii():
            raise Unclear("header")
        row = line.split()
        if len(row) == 1 and set(row[0]) == {"-"}:
            break
        if len(row) == 2 and row[0] == "Epoch:":
            epoch = number(row[1])
    else:
        raise Damaged("no end of the header")
    if epoch is None:
        raise Damaged("no epoch")
    rows, blank = rows_of(lines[idx + 1:])
    nm, gh = [], []
    for row in rows:
        if len(row) != 4:
            raise Damaged("number of values in a row")
        n, m = integer(row[0]), integer(row[1])
        if m < 0:
            raise Damaged("order")
        g, h = number(row[2]), number(row[3])
        if m == 0 and h != 0:
            raise Unclear("value of no effect")
        nm.append((n, m))
        gh.append(g)
        if m > 0:
            nm.append((n, -m))
            gh.append(h)
    check_unique(nm)
    if blank:
        raise Unclear("blank line")
    finite([epoch])
    return epoch, nm, gh


def read_emm(static, secvar):
    unclear = None
    parts = []
    for data in (static, secvar):
        try:
            parts.append(_read_emm(data))
        except Unclear as exc:
            unclear = exc
    if unclear:
        raise unclear
    (epoch1, nm1, gh1), (epoch2, nm2, gh2) = parts
    if epoch1 != epoch2:
        raise Damaged("different epochs")
    if nm1[:len(nm2)] != nm2:
        raise Damaged("different coefficients")
    tail = [(key, val) for key, val in zip(nm1[len(nm2):], gh1[len(nm2):]) if val != 0]
    for n, m in nm2 + [key for key, _ in tail]:
        check_order(n, m, -n)
    if not tail:
        raise Unclear("no constant part")
    return {"nm": nm2, "gh": [[g, g + s*EXTRAPOLATION] for g, s in zip(gh1, gh2)], "t": [epoch1, epoch1 + EXTRAPOLATION],
            "nm0": [key for key, _ in tail], "gh0": [val for _, val in tail]}


def read_mio(data):
    head, lines = skip_comments(split_lines(data))
    head = words(head)
    if len(head) < 10:
        raise Damaged("incomplete header")
    _, _, pmin, pmax, smin, smax = [integer(word) for word in head[:6]]
    colat, lon, height, wolf = finite([number(word) for word in head[6:10]])
    if pmin > pmax or smin > smax:
        raise Damaged("degrees of the series")
    rows, blank = rows_of(lines)
    npar, nsea = pmax - pmin + 1, smax - smin + 1
    nm, ab = [], []
    for row in rows:
        if len(row) != npar*nsea*2 + 2:
            raise Damaged("number of values in a row")
        nm.append((integer(row[0]), integer(row[1])))
        check_order(nm[-1][0], nm[-1][1], -nm[-1][0])
        ab.append([number(word) for word in row[2:]])
    size = len(nm)//2
    if len(nm) % 2 or nm[:size] != nm[size:]:
        raise Damaged("different coefficients")
    check_unique(nm[:size])
    if blank:
        raise Unclear("blank line")
    return {"nm": nm[:size], "qs": ab[:size], "gh": ab[size:], "shape": (nsea, npar, 2), "ps": (pmin, pmax, smin, smax),
            "pole": (90.0 - colat, 180 - ((180 - lon) % 360)), "height": height, "wolf": wolf}
