"""C15: the externalDocs reference validator accepts exactly references to existing entries of the catalogue."""

from checks.catalog import *

# the positions its documentation lists
LISTED = """
info/externalDocs info/tags/0/externalDocs servers/K/externalDocs channels/K/externalDocs channels/K/messages/K/externalDocs
channels/K/messages/K/traits/0/externalDocs channels/K/messages/K/traits/0/tags/0/externalDocs operations/K/externalDocs
operations/K/traits/0/externalDocs operations/K/traits/0/tags/0/externalDocs components/schemas/K/externalDocs
components/servers/K/externalDocs components/channels/K/externalDocs components/channels/K/messages/K/externalDocs
components/channels/K/messages/K/traits/0/externalDocs components/channels/K/messages/K/traits/0/tags/0/externalDocs
components/operations/K/externalDocs components/operations/K/traits/0/externalDocs components/operations/K/traits/0/tags/0/externalDocs
components/messages/K/externalDocs components/messages/K/traits/0/externalDocs components/messages/K/traits/0/tags/0/externalDocs
components/tags/K/externalDocs components/operationTraits/K/externalDocs components/messageTraits/K/externalDocs components/externalDocs/K
"""
# and the ones it covers besides
ALSO = """
channels/K/messages/K/headers/externalDocs channels/K/messages/K/payload/externalDocs channels/K/messages/K/tags/0/externalDocs
channels/K/messages/K/traits/0/headers/externalDocs operations/K/tags/0/externalDocs components/messages/K/headers/externalDocs
components/messages/K/payload/externalDocs components/messageTraits/K/headers/externalDocs
"""
MUST = [tuple(KEY if x == "K" else 0 if x == "0" else x for x in line.split("/")) for line in (LISTED + ALSO).split()]
HARNESSES = harnesses("ExternalDocsRefValidator", "externalDocs", "ExternalDocumentation", MUST)
