"""Stand-in for simanneal.Annealer: same state machine as the published package."""
import copy, math, random, time


class Annealer:
    Tmax = 25000.0
    Tmin = 2.5
    steps = 50000
    updates = 100
    copy_strategy = "deepcopy"
    user_exit = False
    save_state_on_exit = False
    best_state = None
    best_energy = None
    start = None

    def __init__(self, initial_state=None, load_state=None):
        if initial_state is not None:
            self.state = self.copy_state(initial_state)

    def move(self): raise NotImplementedError
    def energy(self): raise NotImplementedError
    def set_user_exit(self, *a): self.user_exit = True
    def copy_state(self, state):
        return copy.deepcopy(state) if self.copy_strategy == "deepcopy" else (state[:] if self.copy_strategy == "slice" else state.copy())
    def update(self, *a, **k): pass
    default_update = update

    def anneal(self):
        step = 0
        self.start = time.time()
        if self.Tmin <= 0.0:
            raise Exception('Exponential cooling requires a minimum "Tmin" temperature greater than zero.')
        Tfactor = -math.log(self.Tmax / self.Tmin)
        T = self.Tmax
        E = self.energy()
        prevState = self.copy_state(self.state)
        prevEnergy = E
        self.best_state = self.copy_state(self.state)
        self.best_energy = E
        while step < self.steps and not self.user_exit:
            step += 1
            T = self.Tmax * math.exp(Tfactor * step / self.steps)
            dE = self.move()
            if dE is None:
                E = self.energy()
                dE = E - prevEnergy
            else:
                E += dE
            if dE > 0.0 and math.exp(-dE / T) < random.random():
                self.state = self.copy_state(prevState)
                E = prevEnergy
            else:
                prevState = self.copy_state(self.state)
                prevEnergy = E
                if E < self.best_energy:
                    self.best_state = self.copy_state(self.state)
                    self.best_energy = E
        self.state = self.copy_state(self.best_state)
        return self.best_state, self.best_energy
