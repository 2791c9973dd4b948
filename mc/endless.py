class Endless(BaseException):
    """A stream was asked again and again though it has nothing more to give."""
