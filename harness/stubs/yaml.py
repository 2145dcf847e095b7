"""Stand-in for PyYAML: nested mappings of plain scalars by indentation (all the repository's files need)."""
FullLoader = SafeLoader = Loader = None


def _scalar(s):
    s = s.strip()
    if s in ("", "null", "~"): return None
    if s == "{}": return {}
    if s.lower() in ("true", "yes"): return True
    if s.lower() in ("false", "no"): return False
    if len(s) > 1 and s[0] == s[-1] and s[0] in "'\"": return s[1:-1]
    for f in (int, float):
        try: return f(s)
        except ValueError: pass
    return s


def load(stream, Loader=None):
    text = stream if isinstance(stream, str) else stream.read()
    root = {}; stack = [(-1, root)]
    for raw in text.splitlines():
        if not raw.strip() or raw.strip().startswith("#") or raw.strip() == "---": continue
        ind = len(raw) - len(raw.lstrip())
        k, _, v = raw.strip().partition(":")
        while stack[-1][0] >= ind: stack.pop()
        if v.strip() == "":
            d = {}; stack[-1][1][_scalar(k)] = d; stack.append((ind, d))
        else: stack[-1][1][_scalar(k)] = _scalar(v)
    return root


safe_load = load
