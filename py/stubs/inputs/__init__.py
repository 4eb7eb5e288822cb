class InputEvent:
    def __init__(self, ev_type, code, state):
        self.ev_type, self.code, self.state = ev_type, code, state
