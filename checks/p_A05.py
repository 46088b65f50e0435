from meshlib import *
import p_R02


def run(c):
    p_R02.run(c, 'int')
