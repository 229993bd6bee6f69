"""setup_cmd: the analyser loads the current source (nothing to build)."""
import sys


def main():
    sys.setrecursionlimit(20000)
    if sys.version_info < (3, 10):
        print("python >= 3.10 is needed")
        return 1
    from . import registry
    from . import engine  # noqa: F401

    print(len(registry.PROPERTIES), "properties registered")
    return 0


if __name__ == "__main__":
    sys.exit(main())
