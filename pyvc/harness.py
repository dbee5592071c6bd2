"""Registry of the contract harnesses."""
import importlib

MODULES = ()
REG = {}


class Harness:

  def __init__(self, fn, props, sym, conc, bounded, budget, stubs, tier, about,
               weight, native, conc_budget, so=False):
    self.fn, self.name = fn, fn.__name__
    self.props = props
    self.sym, self.conc = sym, conc
    self.bounded = bounded
    self.budget = budget
    self.stubs = stubs
    self.tier = tier
    self.about = about or (fn.__doc__ or "").strip()
    self.weight = weight
    self.native = native
    self.conc_budget = conc_budget
    self.so = so


def harness(*props, sym=True, conc=True, bounded=None, budget=150, stubs=True,
            tier="quick", about=None, weight=1, native=False, conc_budget=0, so=False):
  """Registers a contract harness.

  sym: verified symbolically (proof); conc: run natively on drawn inputs.
  bounded: what is bounded, when the proof does not cover every input.
  native: a decision procedure of its own (returns a result dict).
  """
  def deco(fn):
    h = Harness(fn, props, sym, conc, bounded, budget, stubs, tier, about,
                weight, native, conc_budget, so)
    if h.name in REG:
      raise ValueError(f"duplicate harness {h.name}")
    REG[h.name] = h
    return fn
  return deco


def load(modules):
  for m in modules:
    importlib.import_module(m)
  return REG


def of(prop, tier):
  return [h for h in REG.values() if prop in h.props
          and (tier == "thorough" or h.tier == "quick")]
