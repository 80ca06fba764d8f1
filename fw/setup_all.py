"""setup: writes nothing a check depends on; only warms the compiler cache when it can."""
def main():
    print('nothing to set up: each check builds from /repo itself')
