"""setup_cmd: warms the extension cache."""
from . import ext
if __name__ == "__main__":
    for n, p in ext.build_all().items():
        print(n, p)
