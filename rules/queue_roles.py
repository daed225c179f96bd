"""Names of the queue layer several rules use."""
TO_BYTES = "paladin::serializer::Serializer::to_bytes"
FROM_BYTES = "paladin::serializer::Serializer::from_bytes"
SYN = ("ExactlyOnce", "Broadcast")
DEL = ("Persistent", "Ephemeral")
DUR = ("NonDurable", "Durable")


def stream_kind(p):
    """'item', 'end' or 'pending' for a path of `poll_next`."""
    if p.kind != "ret":
        return None
    v = p.variant(p.val)
    if v == "Pending":
        return "pending"
    if v == "Ready":
        x = p.val.a[3][0] if p.val.tag == "agg" else p.interp.ofield(p.st, p.val, "Ready", ("f", 0, "0"))
        return {"None": "end", "Some": "item"}.get(p.variant(x))
    return None
