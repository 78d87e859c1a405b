"""Method name tables shared by the engine halves."""
PURE_METHODS = {
    "get", "keys", "values", "items", "startswith", "endswith", "strip", "lstrip", "rstrip", "split", "join", "format",
    "lower", "upper", "encode", "decode", "find", "index", "count", "copy", "isspace", "replace", "difference",
    "intersection", "union", "issubset", "issuperset", "fullmatch", "match", "search", "sub", "finditer", "group",
    "tell", "getvalue", "getbuffer", "is_valid", "indices", "isfile", "cast_up_possible", "hex", "rindex", "rfind",
    "isdigit", "symmetric_difference", "isdisjoint", "most_common", "rsplit", "partition", "splitlines", "title",
}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "popleft", "appendleft",
            "extendleft", "__setitem__", "__delitem__", "add", "discard", "update", "setdefault", "popitem",
            "difference_update", "intersection_update", "symmetric_difference_update", "incref"}


class Limit(Exception):
    """An analysis bound was hit: the result is not used."""
