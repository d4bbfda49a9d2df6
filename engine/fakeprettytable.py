"""records the table instead of printing it"""
LAST = []


class PrettyTable:
    def __init__(self, *a, **k):
        self.__dict__['field_names'] = None
        self.__dict__['rows'] = []
        LAST.append(self)

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def add_row(self, r, **k):
        self.rows.append(list(r))

    def __str__(self):
        return '<table>'
