import p_A03


def run(c):
    p_A03.run(c, 'ls')
