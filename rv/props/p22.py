"""P22: the external documentation validator checks every documented reference."""

from rv.refval import DOCS, workloads

RULE = ("a case is a conforming document with the validator attached (by parsing, construction, assignment, revalidation or a direct call) whose references of this kind "
        "are placed at documented locations; decision and warnings are compared with the documented rule; locations and strings are recorded as states")
STAGES, FLOORS = workloads(DOCS)
