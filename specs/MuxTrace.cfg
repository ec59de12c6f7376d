SPECIFICATION Spec
INVARIANT Accept
INVARIANT Model
