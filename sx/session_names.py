"""Where the classes of the code under test live (shared by both harness forms)."""


class Modules:
    """Attribute access to the classes of the code under test."""

    where = {
        "FileTree": "filetree", "DatasetTree": "datasettree", "Metadata": "metadata",
        "MetadataInstance": "metadata", "MetadataInstanceSet": "metadata",
        "ExtractorConfiguration": "metadata", "MetadataPath": "metadatapath",
        "MetadataRootRecord": "metadatarootrecord", "MTreeNode": "mtreenode",
        "Text": "text", "UUIDSet": "uuidset", "VersionList": "versionlist",
        "TreeVersionList": "versionlist", "VersionRecord": "versionlist",
        "Reference": "mapper.reference", "common": None,
        "LocalGitMetadataSource": "metadatasource", "MetadataSource": "metadatasource",
        "ImmediateMetadataSource": "metadatasource",
        "flush_object_references": "mapper.gitmapper.objectreference",
        "add_blob_reference": "mapper.gitmapper.objectreference",
        "add_tree_reference": "mapper.gitmapper.objectreference",
        "MetadataGitMapper": "mapper.gitmapper.metadatamapper",
        "GitBlobCache": "mapper.gitmapper.gitblobcache",
        "hash_blob": "mapper.gitmapper.gitblobcache",
        "locked_backend": "mapper.gitmapper.utils",
        "lock_backend": "mapper.gitmapper.utils",
        "unlock_backend": "mapper.gitmapper.utils",
        "ensure_mapped": "mappableobject",
        "get_top_level_metadata_objects": "common",
        "get_top_nodes_and_metadata_root_record": "common",
        "get_metadata_root_record_from_top_nodes": "common",
    }

    def __init__(self, load):
        self._load = load

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        mod = Modules.where.get(name)
        if mod is None:
            raise AttributeError(name)
        v = getattr(self._load("dataladmetadatamodel." + mod), name)
        return v

    def module(self, name):
        return self._load("dataladmetadatamodel" + ("." + name if name else ""))
