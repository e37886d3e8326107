import rasterio


class MemoryFile:
    def __init__(self):
        self._blob, self.closed = None, False

    def open(self, **profile):
        if self.closed:
            raise OSError("I/O operation on closed MemoryFile.")
        if profile:
            return rasterio.DatasetWriter(lambda b: setattr(self, "_blob", b), profile)
        return rasterio.DatasetReader(None, self._blob)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
