"""C14: the tag reference validator accepts exactly references to existing entries of the tag catalogue."""

from checks.catalog import *

MUST = [p for p, k in REF_POSITIONS if k == ["Tag"]]
HARNESSES = harnesses("TagsRefValidator", "tags", "Tag", MUST)
