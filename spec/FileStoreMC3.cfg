SPECIFICATION Spec
CONSTANTS
  Paths = {"a.graphml", "b.c.gml", "d.gexf"}
  Graphs = {1, 2}
  Formats = {"", "graphml", "gexf"}
  Backends = {"", "graph-tool"}
VIEW View
INVARIANT Faithful
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
