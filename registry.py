"""Which harnesses decide which property, and within which bounds."""
CHECKS = {
 "C01": {"harnesses": [
   dict(module="c01", func="in_memory", bounds=dict(ops=2, depth=2, probe=1)),
   dict(module="c01", func="stored", bounds=dict(ops=2, depth=2)),
   dict(module="c01", func="deep", bounds=dict(ops=1), thorough=dict(ops=2)),
   dict(module="many", func="deep_paths", bounds=dict()),
   dict(module="many", func="files", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 520])),
   dict(module="c09", func="accessors", bounds=dict(len=1, kinds=["FileTree", "DatasetTree"])),
 ]},
 "C03": {"harnesses": [
   dict(module="c03", func="text_fields", bounds=dict(len=2), thorough=dict(len=3)),
   dict(module="c03", func="content", bounds=dict(depth=1, len=1), thorough=dict(depth=2, len=1)),
   dict(module="c03", func="several", bounds=dict(runs=3, trips=1), thorough=dict(runs=3, trips=3)),
   dict(module="c03", func="parts", bounds=dict(len=2)),
   dict(module="many", func="extractors", bounds=dict(sizes=[70]), thorough=dict(sizes=[70, 520])),
   dict(module="c09", func="accessors", bounds=dict(len=1, kinds=["Metadata"])),
 ]},
 "C02": {"harnesses": [
   dict(module="c02", func="one_name", bounds=dict(len=2)),
   dict(module="c02", func="words", bounds=dict()),
   dict(module="c02", func="two_names", bounds=dict(len=1)),
   dict(module="c02", func="shapes", bounds=dict()),
   dict(module="many", func="datasets", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 520])),
 ]},
 "C04": {"harnesses": [
   dict(module="c04", func="latest", bounds=dict(runs=2, parameters=3), thorough=dict(runs=3)),
   dict(module="c04", func="order", bounds=dict(runs=2, parameters=3), thorough=dict(runs=3)),
   dict(module="c04", func="configurations", bounds=dict()),
   dict(module="c04", func="instances", bounds=dict()),
 ]},
 "C05": {"harnesses": [
   dict(module="c05", func="round_trip", bounds=dict(len=1), thorough=dict(len=3)),
   dict(module="c05", func="replace_parts", bounds=dict(changes=2), thorough=dict(changes=3)),
   dict(module="c09", func="accessors", bounds=dict(len=1, kinds=["MetadataRootRecord"])),
 ]},
 "C06": {"harnesses": [
   dict(module="c06", func="entries", bounds=dict(sets=2, rich=False), thorough=dict(sets=2, rich=True)),
   dict(module="c06", func="texts", bounds=dict(len=1), thorough=dict(len=2)),
   dict(module="many", func="versions", bounds=dict(sizes=[70]), thorough=dict(sizes=[70, 260])),
   dict(module="c09", func="accessors", bounds=dict(len=1, kinds=["VersionList", "TreeVersionList"])),
 ]},
 "C07": {"harnesses": [
   dict(module="c07", func="entries", bounds=dict(sets=2), thorough=dict(sets=3)),
   dict(module="c07", func="identifiers", bounds=dict(digits=2), thorough=dict(digits=3)),
   dict(module="many", func="identifiers", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 520])),
   dict(module="c09", func="accessors", bounds=dict(len=1, kinds=["UUIDSet"])),
 ]},
 "C08": {"harnesses": [
   dict(module="c08", func="trees", bounds=dict(ops=3, rich=False), thorough=dict(ops=3, rich=True)),
   dict(module="c08", func="lists", bounds=dict(ops=3), thorough=dict(ops=4)),
   dict(module="c08", func="put_together", bounds=dict()),
   dict(module="c08", func="two_realms", bounds=dict(steps=4), thorough=dict(steps=5)),
 ]},
 "C09": {"harnesses": [
   dict(module="c09", func="refuse", bounds=dict(len=1)),
   dict(module="c09", func="transparent", bounds=dict(len=1, steps=3), thorough=dict(steps=4)),
   dict(module="c09", func="parts", bounds=dict()),
   dict(module="c09", func="comparisons", bounds=dict()),
   dict(module="c09", func="accessors", bounds=dict(len=1)),
   dict(module="c09", func="scoped", bounds=dict(len=1)),
 ]},
 "C10": {"harnesses": [
   dict(module="c10", func="copies", bounds=dict(len=1)),
   dict(module="c10", func="records", bounds=dict()),
   dict(module="c10", func="prefixes", bounds=dict(len=2), thorough=dict(len=3)),
   dict(module="c10", func="collectable", bounds=dict()),
 ]},
 "C11": {"harnesses": [
   dict(module="c11", func="spelled", bounds=dict()),
   dict(module="c11", func="sessions", bounds=dict(sessions=1), thorough=dict(sessions=2)),
   dict(module="c11", func="shapes", bounds=dict()),
   dict(module="c11", func="two_stores", bounds=dict()),
   dict(module="many", func="store", bounds=dict(sizes=[14]), thorough=dict(sizes=[14, 70])),
 ]},
 "C12": {"harnesses": [
   dict(module="c12", func="dying", bounds=dict(commands=60), reach=["died"]),
   dict(module="c12", func="dying_twice", bounds=dict(**{"writing commands": 30}, updates=["new file"]),
        thorough=dict(updates=["first", "new file", "new dataset", "sub-dataset", "prefix"]), reach=["died twice"]),
 ]},
 "C13": {"harnesses": [
   dict(module="c13", func="exact", bounds=dict(paths=2, depth=2), thorough=dict(paths=3, depth=2)),
   dict(module="c13", func="names", bounds=dict(len=1), thorough=dict(len=2), reach=["refused", "same", "new"]),
   dict(module="many", func="added_paths", bounds=dict(sizes=[70]), thorough=dict(sizes=[70, 300])),
 ]},
 "C14": {"harnesses": [
   dict(module="c14", func="accumulate", bounds=dict(steps=4), thorough=dict(steps=6)),
   dict(module="c14", func="prefixes", bounds=dict(objects=2), thorough=dict(objects=3)),
   dict(module="c14", func="legacy", bounds=dict(commands=30)),
   dict(module="c14", func="legacy_stores", bounds=dict()),
   dict(module="c14", func="writers", bounds=dict(commands=14), reach=["interleaved", "waited"]),
   dict(module="c14", func="held", bounds=dict()),
   dict(module="many", func="references", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 1030])),
 ]},
 "C15": {"harnesses": [
   dict(module="c15", func="find", bounds=dict(), reach=["found", "not found"]),
   dict(module="c15", func="create", bounds=dict(), reach=["created"]),
   dict(module="c15", func="entry_points", bounds=dict()),
   dict(module="c15", func="both_sides", bounds=dict()),
 ]},
 "C16": {"harnesses": [
   dict(module="c16", func="parse", bounds=dict(len=3), reach=["accepted", "refused"]),
   dict(module="c16", func="stored", bounds=dict(len=3)),
   dict(module="c16", func="sources", bounds=dict()),
 ]},
 "C17": {"harnesses": [
   dict(module="c17", func="round_trip", bounds=dict(len=2)),
   dict(module="c17", func="near_none", bounds=dict(), reach=["none"]),
   dict(module="c17", func="places", bounds=dict(len=7), thorough=dict(len=12)),
   dict(module="c17", func="refuse", bounds=dict(len=1)),
 ]},
 "C18": {"harnesses": [
   dict(module="c18", func="reading", bounds=dict(steps=2), thorough=dict(steps=3), reach=["read", "changed"]),
   dict(module="c18", func="missing", bounds=dict()),
   dict(module="c18", func="separate", bounds=dict(len=3)),
   dict(module="c18", func="copying", bounds=dict()),
 ]},
 "C19": {"harnesses": [
   dict(module="c19", func="counting", bounds=dict(steps=4), thorough=dict(steps=6)),
   dict(module="c19", func="spelled", bounds=dict(steps=3), thorough=dict(steps=4)),
   dict(module="c19", func="nested", bounds=dict(levels=3), thorough=dict(levels=4)),
   dict(module="c19", func="users", bounds=dict()),
   dict(module="c19", func="waiting", bounds=dict()),
 ]},
 "C20": {"harnesses": [
   dict(module="c20", func="one", bounds=dict(len=4), thorough=dict(len=5)),
   dict(module="c20", func="several", bounds=dict(arguments=2, len=2), thorough=dict(arguments=3, len=2)),
   dict(module="c20", func="two", bounds=dict(len=3), thorough=dict(len=4)),
   dict(module="c20", func="parents", bounds=dict(len=4), thorough=dict(len=5)),
 ]},
 "C21": {"harnesses": [
   dict(module="c21", func="described_git", bounds=dict(len=2), thorough=dict(len=3)),
   dict(module="c21", func="described_immediate", bounds=dict(len=1, depth=1), thorough=dict(len=1, depth=2)),
   dict(module="c21", func="copied_immediate", bounds=dict()),
   dict(module="c21", func="git_content", bounds=dict(len=2), thorough=dict(len=4)),
   dict(module="c21", func="git_missing", bounds=dict()),
 ]},
 "C22": {"harnesses": [
   dict(module="c22", func="names", bounds=dict(len=2), thorough=dict(len=4)),
   dict(module="c22", func="written", bounds=dict(blobs=3, len=1), thorough=dict(blobs=4, len=2)),
   dict(module="c22", func="failing", bounds=dict()),
   dict(module="c22", func="through_trees", bounds=dict()),
   dict(module="many", func="objects", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 2100])),
 ]},
 "C23": {"harnesses": [
   dict(module="c23", func="saving", bounds=dict(commands=60), reach=["error"]),
   dict(module="c23", func="twice", bounds=dict(commands=60, gap=6), thorough=dict(gap=30, updates=["first", "new version", "sub-dataset", "change file", "prefix"]),
        reach=["error"]),
   dict(module="c23", func="reading", bounds=dict(commands=60)),
   dict(module="c23", func="objects", bounds=dict(**{"len": 1, "object commands": 30})),
 ]},
 "C24": {"harnesses": [
   dict(module="c24", func="reading", bounds=dict()),
   dict(module="c24", func="writing", bounds=dict()),
 ]},
 "C25": {"harnesses": [
   dict(module="c25", func="reading", bounds=dict(items=2), thorough=dict(items=3)),
   dict(module="c25", func="lists", bounds=dict(looks=2), thorough=dict(looks=3)),
   dict(module="c25", func="changing", bounds=dict()),
   dict(module="c25", func="unchanged", bounds=dict(len=1)),
 ]},
 "C26": {"harnesses": [
   dict(module="c26", func="texts", bounds=dict(len=2), thorough=dict(len=3)),
   dict(module="c26", func="text_objects", bounds=dict(len=1), thorough=dict(len=2)),
   dict(module="c26", func="values", bounds=dict(len=1, depth=1), thorough=dict(len=2, depth=2)),
   dict(module="c26", func="trees", bounds=dict(entries=2, len=2), thorough=dict(entries=3, len=2)),
   dict(module="c26", func="nested", bounds=dict()),
   dict(module="c26", func="files", bounds=dict(files=3, len=2)),
   dict(module="c26", func="references", bounds=dict(steps=3), thorough=dict(steps=4)),
   dict(module="c26", func="failures", bounds=dict()),
   dict(module="c26", func="remote", bounds=dict(len=1, steps=2), thorough=dict(len=1, steps=3)),
   dict(module="many", func="trees", bounds=dict(sizes=[130]), thorough=dict(sizes=[130, 1030])),
   dict(module="many", func="long_texts", bounds=dict()),
 ]},
}
