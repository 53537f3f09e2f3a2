import sys; sys.path.insert(0,'/tmp/seed')
import mk; from bugs2 import BUGS
mk.main(BUGS, sys.argv[1:])
