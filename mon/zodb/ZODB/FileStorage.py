import os, pickle


class FileStorage:
    def __init__(self, name, **kw):
        self.name = os.path.abspath(name)

    def load(self):
        if not os.path.exists(self.name):
            return {}
        with open(self.name, "rb") as f:
            return pickle.load(f)

    def store(self, records):
        with open(self.name + ".new", "wb") as f:
            pickle.dump(records, f)
        os.replace(self.name + ".new", self.name)
