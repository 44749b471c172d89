----------------------------- MODULE RegistryMC -----------------------------
\* Model checking of Registry itself, for few objects.
EXTENDS Registry
CONSTANT MaxHandles
Small == \A o \in Objs : cnt[o] <= MaxHandles
=============================================================================
