"""The specification's own machinery: the Java versions of Vec's operators agree with their TLA+ definitions (spec/MCVec.tla)."""
import sys
import mc
if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    r = mc.explore('MCVec', {'N': str(n)}, invariants=['Vectors', 'Matrices', 'Closeness', 'Factorization', 'Solves'], view='')
    print('MCVec: %d cases, overrides and definitions agree' % r['states'])
