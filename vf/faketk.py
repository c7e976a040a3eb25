''' A stand-in for tkinter, whose widgets only record what is done to them. '''
import sys
from types import ModuleType, SimpleNamespace

PATH = '/nonexistent/picture.ps'


class Canvas:
    ''' Records items, as a tkinter canvas does. '''
    def __init__(self, *args, **kw):
        self.items = {}
        self.count = 0
        self.exported = []

    def postscript(self, file=None, **kw):
        self.exported.append(file)

    def _create(self, kind, coords, kw):
        coords = coords[0] if len(coords) == 1 else coords
        self.count += 1
        tags = [kw.get('tag', ())] if isinstance(kw.get('tag', ()), str) else list(kw.get('tag', ()))
        tags += [kw.get('tags', ())] if isinstance(kw.get('tags', ()), str) else list(kw.get('tags', ()))
        self.items[self.count] = dict(kw, kind=kind, coords=[float(x) for x in coords], tags=tags)
        return self.count

    def create_line(self, *coords, **kw):
        return self._create('line', coords, kw)

    def create_polygon(self, *coords, **kw):
        return self._create('polygon', coords, kw)

    def create_oval(self, *coords, **kw):
        return self._create('oval', coords, kw)

    def create_text(self, *coords, **kw):
        return self._create('text', coords, kw)

    def find(self, which):
        if which == 'all':
            return list(self.items)
        if isinstance(which, int):
            return [which] if which in self.items else []
        if isinstance(which, (list, tuple)):
            return [j for i in which for j in self.find(i)]
        return [i for i, item in self.items.items() if which in item['tags']]

    def coords(self, which, *coords):
        coords = coords[0] if len(coords) == 1 else coords
        for i in self.find(which):
            self.items[i]['coords'] = [float(x) for x in coords]

    def move(self, which, dx, dy):
        for i in self.find(which):
            self.items[i]['coords'] = [x + (dy if k % 2 else dx) for k, x in enumerate(self.items[i]['coords'])]

    def itemconfig(self, which, **kw):
        for i in self.find(which):
            self.items[i].update(kw)
    itemconfigure = itemconfig

    def delete(self, *whiches):
        for which in whiches:
            for i in self.find(which):
                del self.items[i]

    def bbox(self, *whiches):
        points = [p for which in whiches for i in self.find(which) for p in pts(self.items[i]['coords'])]
        if not points:
            return None
        xs, ys = zip(*points)
        return (min(xs), min(ys), max(xs), max(ys))

    def tag_raise(self, *args):
        pass
    tag_lower = tag_raise


def pts(coords):
    return list(zip(coords[0::2], coords[1::2]))


class TclError(Exception):
    pass


class Widget:
    ''' Ignores whatever is not recorded. '''
    def __init__(self, *args, **kw):
        self.children_ = []
        self.parent_ = args[0] if args and isinstance(args[0], Widget) else None
        if self.parent_ is not None:
            self.parent_.children_.append(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: None

    def find(self, kind):
        return ([self] if isinstance(self, kind) else []) + [w for child in self.children_ for w in child.find(kind)]


class Tk(Widget):
    size = (700, 500)
    roots = []

    def __init__(self, *args, **kw):
        super().__init__()
        self.tk, self._w = SimpleNamespace(call=lambda *args, **kw: None), '.'
        self.bindings = {}
        Tk.roots.append(self)

    def bind(self, event, f, add=None):
        self.bindings[event] = f

    def press(self, key):
        self.bindings['<Key>'](SimpleNamespace(keysym=key, char=key if len(key) == 1 else ''))

    def choose(self, label):
        entries = [e for menu in self.find(Menu) for e in menu.entries if e[1].get('label') == label]
        assert len(entries) == 1, (label, entries)
        kind, kw = entries[0]
        var = kw.get('variable', kw.get('var'))
        if kind == 'radiobutton':
            var.set(kw.get('value', label))
        elif kind == 'checkbutton':
            var.set(not var.get())
        if kw.get('command'):
            kw['command']()

    def winfo_width(self):
        return Tk.size[0]

    def winfo_height(self):
        return Tk.size[1]


class Notebook(Widget):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.tabs_, self.current = [], 0

    def add(self, child, text='', **kw):
        self.tabs_.append((child, text))

    def index(self, which):
        return self.current if which == 'current' else len(self.tabs_) if which == 'end' else which

    def select(self, which=None):
        if which is not None:
            self.current = which
        return self.current

    def winfo_width(self):
        return Tk.size[0]

    def winfo_height(self):
        return Tk.size[1]


class Menu(Widget):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.entries = []

    def add_command(self, **kw):
        self.entries.append(('command', kw))

    def add_radiobutton(self, **kw):
        self.entries.append(('radiobutton', kw))

    def add_checkbutton(self, **kw):
        self.entries.append(('checkbutton', kw))


class Var:
    def __init__(self, master=None, value=None, name=None):
        self.value, self.traces = value, []

    def get(self):
        return self.value

    def set(self, value):
        self.value = value
        for f in self.traces:
            f('PY_VAR', '', 'w')

    def trace(self, mode, f):
        self.traces.append(f)
    trace_add = trace_variable = trace


def show(f, args, size):
    ''' Call curver.show() and return its window. '''
    Tk.size = tuple(size)
    Tk.roots.clear()
    f(*args)
    root, = Tk.roots
    return root


def install():
    mods = {name: ModuleType(name) for name in ('tkinter', 'tkinter.font', 'tkinter.ttk', 'tkinter.filedialog', 'tkinter.messagebox', 'tkinter.constants')}
    tk = mods['tkinter']
    for name, mod in mods.items():
        if name != 'tkinter':
            setattr(tk, name.split('.')[1], mod)
    tk.__path__ = []
    for name, value in dict(Tk=Tk, Canvas=Canvas, Menu=Menu, TclError=TclError, PhotoImage=Widget, Frame=Widget, Label=Widget, Button=Widget, BooleanVar=Var, StringVar=Var, IntVar=Var, DoubleVar=Var).items():
        setattr(tk, name, value)
    mods['tkinter.font'].Font = Widget
    for name, value in dict(Style=Widget, Notebook=Notebook, Frame=Widget, Label=Widget, Button=Widget, Scrollbar=Widget).items():
        setattr(mods['tkinter.ttk'], name, value)
    mods['tkinter.filedialog'].asksaveasfilename = lambda *args, **kw: PATH
    for name in ('showinfo', 'showwarning', 'showerror'):
        setattr(mods['tkinter.messagebox'], name, lambda *args, **kw: None)
    sys.modules.update(mods)
