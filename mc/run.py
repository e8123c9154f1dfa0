import sys

from mc import engine

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(engine.replay(sys.argv[2]))
    sys.exit(engine.main(sys.argv[1]))
