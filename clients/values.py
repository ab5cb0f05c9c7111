"""values a user may pass"""


class Silent(object):
    """its string conversion raises"""
    def __init__(self, message):
        self.message = message

    def __str__(self):
        raise ValueError(self.message)


class Worded(object):
    """its string conversion is some text"""
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Mute(Silent):
    """nothing can be learned about it"""
    def __repr__(self):
        raise ValueError(self.message)


class Touchy(Worded):
    """like an array: it is neither true nor false, has no length and cannot be compared"""
    def __bool__(self):
        raise ValueError('truth value is ambiguous')

    def __len__(self):
        raise TypeError('len() of unsized object')

    def __eq__(self, other):
        raise ValueError('cannot be compared')

    def __hash__(self):
        raise TypeError('unhashable')
