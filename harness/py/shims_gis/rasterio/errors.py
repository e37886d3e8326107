class RasterioIOError(OSError):
    pass
