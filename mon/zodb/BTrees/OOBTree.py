from persistent.mapping import PersistentMapping


class BTree(PersistentMapping):
    def has_key(self, k):
        return k in self.data


OOBTree = BTree
