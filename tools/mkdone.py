DONE = ['C%02d' % i for i in range(1, 22)]
