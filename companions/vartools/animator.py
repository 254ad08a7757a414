class Animator:
    def __init__(self, *args, **kwargs):
        for kk, vv in kwargs.items():
            setattr(self, kk, vv)
