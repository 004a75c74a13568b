C = "xdvdfs-cli/src/"
K = "xdvdfs-core/src/"
def S(id, property, needs, breaks, edits, case, files={}):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, cli=True, files=dict(files, **{"case.sh": case.lstrip("\n")}))
SEEDS = [
 S("info-scan", "C22", "info of a directory whose records have space between them", "entries behind the space are not reported",
  [(C+"cmd_info.rs", """    let children = subdir.walk_dirent_tree(img).await?;
    for node in children {
""", """    let mut children = subdir.scan_dirent_tree(img).await?;
    while let Some(node) = children.next_entry().await? {
""")], r"""
mkdir a; echo 1 > a/m; echo 2 > a/x
"$X" pack a a.iso >/dev/null || fail pack
[ "$("$X" info a.iso / | grep -c '^Name:')" = 2 ] || fail "not both entries"
# the same image with the second record 40 bytes further
python3 - <<'P' || fail python
import struct
b = bytearray(open("a.iso", "rb").read())
v = 32 * 2048
t = struct.unpack_from("<I", b, v + 20)[0] * 2048
l, r = struct.unpack_from("<HH", b, t)
o = max(l, r) * 4
struct.pack_into("<I", b, v + 24, 2048)
rec = bytes(b[t + o:t + o + 15])
b[t + o:t + 100] = b"\xff" * (100 - o)
b[t + o + 40:t + o + 55] = rec
struct.pack_into("<HH", b, t, (o + 40) // 4 if l else 0, (o + 40) // 4 if r else 0)
open("b.iso", "wb").write(b)
P
"$X" info b.iso / > out || fail info
[ "$(grep -c '^Name:' out)" = 2 ] || fail "not both entries of the other image"
"""),
]
