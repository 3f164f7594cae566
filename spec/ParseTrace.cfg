SPECIFICATION Spec
INVARIANTS Conforms Denotes
VIEW View
ALIAS Alias
