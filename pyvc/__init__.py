"""Deductive verification of the functions of algebraixlib.

Collections of garbage are switched off: they free terms of the solver at moments that depend on, for instance, whether the modules
had to be compiled, and numbers of terms decide how the solver searches."""
import gc

gc.disable()
