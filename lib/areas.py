"""Which check decides which property."""
from area_datatable import check_c12
from area_frag import check_c06
from area_session import check_c01, check_c02, check_c04, check_c05
from area_io import check_s05
from area_l5x import check_l01
from area_listing import check_c10
from area_multi import check_c07, check_c08, check_c13
from area_objmsg import check_a01
from area_round import check_e01
from area_refresh import check_c15
from area_replies import check_c09
from area_naming import check_k03
from area_pack import check_k01
from area_path import check_c14
from area_route import check_k02
from area_seq import check_c03
from area_server import check_s01, check_s02, check_s03, check_s04, check_s06, check_s07
from area_template import check_c11

CHECKS = {
    "A01": check_a01,
    "C01": check_c01,
    "C02": check_c02,
    "C03": check_c03,
    "C04": check_c04,
    "C05": check_c05,
    "C06": check_c06,
    "C07": check_c07,
    "C08": check_c08,
    "C09": check_c09,
    "C10": check_c10,
    "C11": check_c11,
    "C12": check_c12,
    "C13": check_c13,
    "C14": check_c14,
    "C15": check_c15,
    "E01": check_e01,
    "K01": check_k01,
    "K02": check_k02,
    "K03": check_k03,
    "L01": check_l01,
    "S01": check_s01,
    "S02": check_s02,
    "S03": check_s03,
    "S04": check_s04,
    "S05": check_s05,
    "S06": check_s06,
    "S07": check_s07,
}
_SES = ("EipClient.tla: a reference client (mutex held across send, receive and the closing of a failed connection) and an "
        "unreliable target are explored completely for two callers; ")
NOTES = {
    "A01": "ObjMsg.tla: calls composed into bytes and taken apart by a device, answers taken apart and read value by value, model-checked for every object, "
           "answer and length of path (twelve careless clients are found); histories of the model, every service, status, number width and path length, and "
           "random calls go through the real client; what the device was asked and what the caller got are validated by TLC.",
    "E01": "RoundTrip.tla: clients and a server that handles one service at a time are model-checked against it (seven careless ones are found); the "
           "generated histories, every type by every way of writing and reading, lengths around the message sizes, and random calls of up to three real "
           "clients (also shared by goroutines, some with the race detector) go through the real server; TLC searches the order that explains every "
           "result and the table.",
    "K02": "RoutePath.tla: reading a text, and taking bytes apart again, are model-checked against each other for all texts of four items; "
           "the texts, every address length and number, everything malformed, and built paths go through the real code, and real clients "
           "with these paths ask a real server; bytes and providers reached are validated by TLC.",
    "L01": "Project.tla: what a file states and what loading may give; a loader going through tags and digits is model-checked against it (five careless "
           "ones are found).  Files written from abstract projects - every base and edge value of every type, random projects with every "
           "combination of parts - are loaded by the real code and the maps validated by TLC.",
    "K03": "TypeName.tla: the text and the number of a structure type, made field by field in step with the layout of PackLayout.tla; TLC checks "
           "that every hidden byte is named once and that types of one text take the same room.  The real code names 480 declared types and "
           "writes values of them to a recording target; texts, numbers and bytes are validated by TLC.",
    "K01": "PackLayout.tla: every structure up to the bounds is laid out field by field and the layout checked (aligned, nothing shared, no "
           "waste, reversible); the structures generated and random nested ones are built by reflection and packed and unpacked by the "
           "real code, and bytes and values are validated by TLC.",
    "C01": _SES + "its behaviours, every fault at every step of connect, use, reconnect and disconnect, and concurrent mixes run "
           "through the real client (the concurrent ones also on a single processor), and the recorded calls, connections, requests "
           "and replies are validated by TLC.",
    "C02": _SES + "late, lost, cut and refused replies with other callers waiting run through the real client; the values "
           "returned and the order of requests at the target are validated by TLC.",
    "C03": "SeqCount.tla: the counting discipline is model-checked at a small modulus (a count shared by several clients fails); "
           "requests of every kind in every order, more than once round the real 16-bit count, from several goroutines and "
           "clients, are recorded at the target and validated by TLC; separately counting operations are driven into alignment.",
    "C04": _SES + "histories of connects, fallbacks, failures and reconnects over all connection sizes run through the real "
           "client; the identifiers in every request are validated by TLC.",
    "C05": _SES + "orders of connect, start, cancel, disconnect, hang-up and failing polls run through the real client; polls, "
           "status and survival are validated by TLC; cancels followed at once by a start run on a single processor, where the goroutine "
           "that was cancelled notices last.",
    "C06": "FragRead.tla explored completely for values of 4 units, every split into up to 5 replies, statuses and lost "
           "replies; every generated target behaviour is replayed through the real client with element sizes 1-8 bytes and "
           "chunks that cut elements, and the recorded requests, replies and results are validated by TLC.",
    "C07": "MultiRead.tla: splitting and rejoining is model-checked over all item sizes and target decisions (joining in the wrong "
           "order fails); the behaviours and random calls of all five reading interfaces over all types, sizes and faults run "
           "through the real client; requests and results are validated by TLC.",
    "C08": "Write.tla: a client that fills messages and judges the acknowledgements is model-checked (looking at the first or last "
           "status only fails); the behaviours and random calls of the three writing interfaces run through the real client; "
           "every write request at the target and every verdict is validated by TLC.",
    "C09": "Replies.tla: what an operation may make of refused, incomplete, lost or damaged replies, model-checked over all sequences of "
           "damages (a careless client is found); these, and every kind of damage to every request of every operation, run through "
           "the client; results, what is left at the caller's place and the use afterwards are validated by TLC.",
    "C10": "Listing.tla: any client keeping to the rules against every paging of a small controller is checked for completeness "
           "and termination; the generated pagings (with and without the program object, failures at every page) and large random "
           "controllers run through ListAllTags, ListSubTags and ListAllPrograms, also several at a time with the race detector; pages and tags are validated by TLC.",
    "C11": "Template.tla: every split and failure of the definitions of nested, shared and missing templates is checked; these and "
           "random families run through ListMembers and ListAllTags; requests and member trees are validated by TLC.",
    "C12": "DataTable.tla: the client's bookkeeping of indices and batches is model-checked against the target's entries over all "
           "histories of seven calls; these and long random histories run through DataTableBuffer; requests, results and the "
           "variables given by reference are validated by TLC.",
    "C13": "The size and order guards of MultiRead.tla and Write.tla, model-checked over all item sizes; calls around the limits of "
           "eight connection configurations, read and written, are recorded at the target and validated by TLC.",
    "C14": "TagPath.tla: a client that remembers encoded paths and uses listed instances is model-checked against a target that "
           "renames and removes tags (not forgetting at a new listing fails); the behaviours, random histories in three scopes, "
           "all bits, index and name-length boundaries and malformed paths run through every reading and writing interface; "
           "requests and values are validated by TLC.",
    "C15": "Refresh.tla: when the tags have to be listed and what is known then; a client that compares answers and lists page by page is "
           "model-checked against a target that changes at any moment (eight careless ones are found); its behaviours and random histories, "
           "with changes between polls and between pages, run through the real client, partly with the race detector; polls, pages, known "
           "tags and values are validated by TLC.",
    "S01": "EipServer.tla: a server with workers per session and state of its own is model-checked against it (eleven careless ones "
           "are found); the generated histories, every kind of request by every way in, and random histories over up to three "
           "sessions and connections run against the real server; every byte that comes back is matched with a request by TLC.",
    "S02": "EipServer.tla (model-checked as for S01): generated and random histories of opens, uses and closes over nine kinds of route "
           "paths, with identifiers that differ in one part only and intervals of their own, alone and racing, run against the real server; TLC decides which "
           "connection, provider and acknowledgement each answer must come from.",
    "S03": "TagStore.tla gives the results every read and write may have; histories of scalar, array, element, string, converted, "
           "fragmented, multiple-service and attribute operations by one session or several at the same time run against the real server; "
           "TLC searches for an order of the operations that explains all answers and what the provider holds in the end.",
    "S04": "EipServer.tla: a request that is not well-formed changes nothing, and only its own session may suffer; damaged requests of "
           "every kind, mutated messages and datagrams run beside a witness whose answers, and the tables in the end, are validated by TLC.",
    "S05": "IoServer.tla: images, providers that have none for a while, connections, packets both ways, subscribers; a server with senders and a receiver is model-checked against it "
           "(a torn, cut, stale or misdirected image, a sender that goes on, a busy subscriber are found); histories of it and random ones run "
           "against the real server with raw sockets at the originators' addresses and are validated by TLC.",
    "S06": "TagStore.tla's numbering of the tags in alphabetical order: listings from every instance, attribute reads and writes of every "
           "instance and additions of tags run against the real server and are validated by TLC.",
    "S07": "EipServer.tla: one configured identity from which every query is answered; all queries in all ways, over extreme identities, run "
           "against the real server and are validated by TLC.",
}
