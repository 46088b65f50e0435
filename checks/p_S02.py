import p_S01


def run(c):
    p_S01.run(c, ('eig', 'eig', 'eig', 'gen'))
