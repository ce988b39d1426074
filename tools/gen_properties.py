#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to avoid hand-escaping JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or [], hook_needed=hook)))
I = "include/nbdl/"

prop("C01", "Every message reaches exactly the actors entitled to it",
 "Pushing an upstream message into a context (other than a read that the context itself answers) delivers it, unchanged and exactly once, to the one producer that owns the message's path and to no other actor. Pushing a downstream message delivers it, unchanged and exactly once, to every consumer in the order the consumers were declared, and to no producer. This holds for every action, every path, every context definition, whoever pushes the message, and also when actors push further messages while handling one.",
 ["histories", "inputs", "configurations"],
 "every sequence of pushed messages (all 8 channel/action kinds, all declared paths, any payload/uid), including messages pushed re-entrantly by actors, over several context definitions",
 "The tests push one hand-written message per action into one definition; nesting, sequences, mixed paths and path types shared between producers are never exercised.",
 [I+"context.hpp", I+"def/builder/producer_map.hpp", I+"def/builder/enumerate_producers.hpp", I+"def/builder/context_actors.hpp", I+"make_context.hpp"],
 [dict(name="propagate_upstream / propagate_downstream", where=I+"context.hpp"), dict(name="producer lookup by path type", where=I+"def/builder/producer_map.hpp")],
 [dict(name="actors", meaning="producers then consumers of the context", where=I+"context.hpp")],
 ["send_upstream_message / send_downstream_message customization points"])

prop("C02", "State is applied before anyone hears; observers hear exactly the changes",
 "A pushed message is applied to the store of its path exactly once and before any actor is given the message or a notification. Each state observer is notified exactly once, with the message's path, if and only if that store reported a change; reads pushed upstream never notify. Stores that declared they listen to the message's path, and only those, are then offered the message once, and every path they mark is notified once to every state observer.",
 ["histories", "inputs", "configurations"],
 "every sequence of messages and every pattern of store answers (changed / not changed / paths marked), including re-entrant pushes by notified observers",
 "Tests use one mock store answer per case and never look at the relative order of application, notification and delivery or at repeated application.",
 [I+"context.hpp", I+"apply_message.hpp", I+"apply_foreign_message.hpp", I+"notify_state_change.hpp", I+"def/builder/listener_lookup.hpp", I+"def/builder/store_map.hpp"],
 [dict(name="push_message", where=I+"context.hpp"), dict(name="listener lookup", where=I+"def/builder/listener_lookup.hpp")],
 observe=["apply_message / apply_foreign_message / notify_state_change customization points"])

prop("C03", "One request per unknown value; known values are answered locally",
 "When a value that has never been requested is read or looked at through the context, exactly one read request goes to the owning producer, and until an answer arrives further reads and looks of that path produce no traffic and show 'unresolved'. Once a value (or 'not found') is known, a pushed read is answered to every consumer with that value, the request's path and uid, and never reaches a producer. After the value is deleted the path counts as never requested again.",
 ["histories", "schedules"],
 "every interleaving of looks, pushed reads and answers (create/read/update/delete coming back in any order, possibly synchronously from inside the request)",
 "The test for dispatching an upstream read is disabled in the repository ('need valid test'); the built-in map store is never placed in a context by any test.",
 [I+"context.hpp", I+"map_store.hpp", I+"ext/std/unordered_map.hpp", I+"message.hpp", I+"tags.hpp"],
 [dict(name="read branch of push_message and match", where=I+"context.hpp"), dict(name="unresolved placeholder", where=I+"map_store.hpp")],
 [dict(name="map", meaning="path -> unresolved | value | not_found", where=I+"map_store.hpp")],
 ["send_upstream_message of the producer", "nbdl::match on the context"])

prop("C04", "The map store is the fold of the confirmed history",
 "After any sequence of messages, a key of a map store shows exactly what the last effective downstream message left there: create and update always set the value, a downstream read sets it only while the key is unresolved or unknown, delete makes it unknown again, and upstream messages never alter a value (an upstream read only marks an unknown key as unresolved). Applying a message reports a change exactly when a downstream create, update or delete was applied or a downstream read was stored. Keys never influence one another, whatever their hashes.",
 ["histories", "inputs"],
 "every sequence of the 8 message kinds over any set of keys (composite, string, variant keys; colliding hashes) and values (entity, not_found)",
 "Tests apply a single message to an empty or one-element store; sequences, several keys and hash collisions are not covered.",
 [I+"map_store.hpp", I+"fwd/map_store.hpp", I+"ext/std/unordered_map.hpp", I+"binder/hash.hpp", I+"detail/hash_combine.hpp"],
 [dict(name="handle_map_store_action", where=I+"map_store.hpp")],
 [dict(name="map", meaning="the stored values", where=I+"map_store.hpp")], ["nbdl::match(store, key)", "return value of nbdl::apply_message"])

prop("C05", "Optimistic local edits converge to the confirmed order without flicker",
 "A local change is shown at once and stays shown until a change received later overrides it, and the confirmation of one of several outstanding changes never alters what is shown. Whenever no local change is outstanding, the shown value equals the last full value applied with all deltas confirmed since then applied in confirmation order - the same on every client that received the same confirmed stream, whatever local edits each made. Confirmed changes of others are shown immediately. What is shown is the same whether the value is read whole or one member is asked for.",
 ["histories", "schedules"],
 "every interleaving of local edits, confirmations of own and foreign edits (own confirmations in any order relative to foreign ones) and full-value replacements, on every number of fields",
 "Two fixed sequences are tested; the convergence claim quantifies over all interleavings.",
 [I+"local_version.hpp", I+"delta.hpp", I+"apply_delta.hpp"],
 [dict(name="apply_local_delta / apply_confirmed_delta", where=I+"local_version.hpp")],
 [dict(name="value", meaning="what is shown", where=I+"local_version.hpp"), dict(name="pending_delta", meaning="confirmed and local changes since quiescence", where=I+"local_version.hpp"), dict(name="local_uids", meaning="outstanding local changes", where=I+"local_version.hpp")],
 ["nbdl::get / match on the store after every message"])

prop("C06", "Deltas describe and apply exactly the difference",
 "The delta made from two values mentions exactly the members in which they differ; applying it to the second value yields the first and reports a change exactly when some member really changed. Applying a delta changes only the members it mentions and applying it a second time reports no change. Applying a delta onto another delta yields one delta with the effect of applying the two in sequence.",
 ["inputs", "histories"],
 "every pair/sequence of values and deltas of a bindable record (any number of members, any member types incl. strings)",
 "Tests use two or three literal records.",
 [I+"delta.hpp", I+"make_delta.hpp", I+"apply_delta.hpp", I+"variant.hpp", I+"bind_sequence.hpp"],
 [dict(name="make_delta_impl / apply_delta_impl", where=I+"delta.hpp")])

prop("C07", "A pipeline runs its stages in order and routes each rejection once",
 "Each run of a pipeline hands every stage the result of the previous one, in order and exactly once, across arbitrary nesting and whether a stage completes immediately or later. A rejection (or an exception in a try stage) skips every following stage up to the first later handler that accepts the rejected arguments, runs that handler once and ends the run; handlers that do not accept it, and handlers before it, never run. When nothing is rejected no handler runs, and a stage that ends the run early lets nothing after it run.",
 ["programs", "schedules", "inputs"],
 "every pipeline shape (plain functions, promises, taps, try stages, nested pipes, handlers for several error types), every resolve/reject/terminate/defer choice per stage, and every completion order of concurrently running pipelines",
 "Four fixed synchronous pipes are tested; no deferred completion, nesting with rejection, exceptions, terminate or concurrency.",
 [I+"run_async.hpp", I+"run_sync.hpp", I+"promise.hpp", I+"catch.hpp", I+"try.hpp", I+"tap.hpp", I+"hold.hpp", I+"detail/wrap_promise.hpp", I+"detail/promise_join.hpp", I+"fwd/detail/promise_join.hpp", I+"pipe.hpp"],
 [dict(name="promise_join_t resolve/reject/terminate", where=I+"fwd/detail/promise_join.hpp")],
 observe=["calls of user stage functions and handlers"])

prop("C08", "An asynchronous run owns its state until its end and frees it once",
 "Everything an asynchronous pipeline or loop captured stays alive until the run has ended (by its last stage, an accepted rejection or termination) and is destroyed exactly once right then - never before a deferred completion is delivered, never twice, never leaked. A loop starts its stages over, with the result of the last stage, for as long as they resolve and stops for good at the first termination or handled rejection.",
 ["schedules", "programs", "histories"],
 "every shape and completion schedule as in C07, any number of iterations and of concurrently active runs",
 "One synchronous loop of 42 iterations is tested; lifetime is not observed by any test.",
 [I+"run_async.hpp", I+"run_async_loop.hpp", I+"hold_lazy.hpp", I+"fwd/detail/promise_join.hpp", I+"catch.hpp"],
 [dict(name="shared_end_pipe / promise_end", where=I+"run_async.hpp"), dict(name="shared_end_pipe_loop", where=I+"run_async_loop.hpp")],
 observe=["constructor/destructor counts of captured objects", "AddressSanitizer"])

prop("C09", "Messages cross a websocket connection intact, once, in order",
 "Every message handed to an open endpoint is delivered to the peer exactly once, byte-for-byte, in the order handed over, whatever its length or content, whether it was handed over before or after messaging started, while others were still in transit, or from inside a message handler; a conforming peer's messages, masked or not, are delivered likewise. On the wire each message is one uninterrupted sequence of frames: the first carries the message type, later ones are continuations, only the last carries the final marker, and each states its exact length, in the shortest form, and is no larger than the sender's bound.",
 ["inputs", "schedules", "histories"],
 "every sequence of messages of any length/content in both directions and every way the byte stream is cut into reads",
 "The tests send two or three short literal strings.",
 [I+"websocket/detail/message_sender.hpp", I+"websocket/detail/message_reader.hpp", I+"websocket/detail/endpoint_impl.hpp", I+"async_enqueue.hpp", I+"endpoint_send_message.hpp"],
 [dict(name="send_message_impl / start_send_queue", where=I+"websocket/detail/message_sender.hpp")],
 [dict(name="send_queue", meaning="messages not yet fully sent", where=I+"websocket/detail/endpoint_impl.hpp")],
 ["raw socket bytes", "message handler calls"])

prop("C10", "Any well-formed frame stream is understood, anything else is refused",
 "For every conforming frame stream - any fragmentation of text/binary messages, any of the three length encodings, masked or unmasked frames, control frames with any allowed payload between or inside fragmented messages - the endpoint delivers exactly the messages the stream encodes, in order. A close frame or a frame with an unknown opcode ends reading: nothing after it is delivered, an unknown opcode is reported as a bad request, and a stream cut off anywhere delivers only the messages that were complete.",
 ["inputs", "fault_sequences", "schedules"],
 "every conforming byte stream, every position of cut or bad opcode and every chunking of the stream",
 "Tests feed only frames produced by the library's own sender plus two literal frames.",
 [I+"websocket/detail/message_reader.hpp", I+"websocket/detail/endpoint_impl.hpp"],
 [dict(name="message_reader::keep_reading", where=I+"websocket/detail/message_reader.hpp")],
 [dict(name="payload", meaning="accumulated message", where=I+"websocket/detail/message_reader.hpp")],
 ["endpoint handler calls while a raw peer writes bytes"])

prop("C11", "Close and stop are final and reported once",
 "After an endpoint has put its close frame on the wire it sends nothing more; a close requested while messages are being sent goes out at the next message boundary and messages still queued are not sent. An endpoint that receives a close frame answers with one close frame of its own unless it already sent one, and reports the close to its user exactly once, when both close frames have passed. After stop no handler of that endpoint is called any more, and nothing is sent before messaging was started.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of send, close, start, stop on both sides with the delivery of frames, including simultaneous close and disconnects",
 "One close from one side with idle queues is tested.",
 [I+"websocket/detail/endpoint_impl.hpp", I+"websocket/detail/message_reader.hpp", I+"endpoint_send_close.hpp", I+"endpoint_handler.hpp"],
 [dict(name="start_send_queue / send_close / stop / call_handler", where=I+"websocket/detail/endpoint_impl.hpp")],
 [dict(name="pending_control_frame, is_started, is_stopped, is_close_received", meaning="connection phase", where=I+"websocket/detail/endpoint_impl.hpp")],
 ["raw socket bytes", "on_close / on_message / error handler calls"])

prop("C12", "Only a proper handshake opens a connection, with the client's own credentials",
 "A server endpoint becomes ready exactly once, after it has read a complete request consisting of the expected request line and header lines and has answered with the accept value derived from the client's key; header names are matched without regard to case and other headers are ignored in any order. The credential reported on becoming ready is exactly the value of the authentication cookie the client sent, or empty if it sent none. Any other first line is reported as a bad request and a connection lost earlier as an error, each once and never together with becoming ready; a client becomes ready exactly when it has received the expected answer.",
 ["inputs", "fault_sequences"],
 "every set, order and spelling of header lines up to the reader's line limit (254 bytes), every cookie list, every truncation point and every chunking of the request",
 "One literal request is tested.",
 [I+"websocket/detail/parse_handshake_request.hpp", I+"websocket/detail/parse_handshake_response.hpp", I+"websocket/detail/send_handshake_request.hpp", I+"websocket/detail/send_handshake_response.hpp", I+"websocket/detail/expect_equal.hpp", I+"websocket/detail/get_auth_token.hpp", I+"websocket/server_endpoint.hpp", I+"websocket/client_endpoint.hpp"],
 [dict(name="parse_handshake_request, send_handshake_response, get_auth_token", where=I+"websocket/detail/parse_handshake_request.hpp")],
 observe=["on_ready / bad_request / error handlers", "raw response bytes"])

prop("C13", "Turning a request into its answer preserves what it says",
 "Converting an upstream message to its downstream counterpart keeps the action, the path, the uid and the payload and only adds the confirmation mark it was asked to add; a create without a key receives exactly the given key under its parent path. What a message was built from is exactly what reading its parts gives back, and the optional parts are reported present exactly when they were given. The normalized path of a create is its parent path followed by the key it identifies.",
 ["inputs", "programs"],
 "all eight message kinds with and without uid, private payload, confirmation and key, for any path and payload",
 "Tests check a handful of constructions with one value each; conversions are checked for two kinds.",
 [I+"message.hpp", I+"fwd/message.hpp", I+"echo_producer.hpp"],
 [dict(name="to_downstream*, get_*, make_*", where=I+"message.hpp")])

prop("C14", "The echo producer answers each request once, with fresh keys",
 "Every upstream create, update or delete that reaches an echo producer comes back downstream through the context exactly once before the push returns, with the same path, uid and payload, so a store behind it ends up as if the request had been applied. Creates that need a key get one that no earlier create for that kind of path received. Every observer and consumer sees the echoed message exactly as any other downstream message.",
 ["histories"],
 "every sequence of upstream requests over several paths and contexts using echo producers",
 "One create and one update are tested.",
 [I+"echo_producer.hpp", I+"context.hpp", I+"message.hpp"],
 [dict(name="send_upstream_message_impl<echo_producer>, make_unique_key", where=I+"echo_producer.hpp")])

prop("C15", "A variant always is exactly the alternative last put into it",
 "After any sequence of assignments, copies, moves and type-id-driven loads, a variant holds exactly the alternative and value last put into it: matching calls exactly one function, once, with that value, selective matching calls it exactly when the type agrees, and its type id identifies that alternative. A fresh variant is 'unresolved' with id 0, a load with an id out of range changes nothing, and copies are independent. Two variants are equal exactly when they hold equal values of the same alternative.",
 ["histories", "inputs"],
 "every sequence of operations on variants/optionals of any alternatives (empty, trivial, owning types, nested variants)",
 "Tests perform a few assignments of literal values.",
 [I+"variant.hpp", I+"variant_holder.hpp", I+"bind_variant.hpp", I+"match.hpp", I+"fwd/match.hpp"],
 [dict(name="variant, bind_variant_impl, match_impl, equal_impl", where=I+"variant.hpp")])

prop("C16", "Following a path visits exactly the addressed value",
 "Looking up a path in nested stores calls the given function exactly once with the value reached by following the keys one by one, through values, states, variants, maps and composed or aliased stores; a missing key or an unresolved part is shown as such instead of a wrong value. A composed store answers its own key with its own value and every other key with what the underlying store holds, and an action addressed to one part never changes the other. Iterating a range of stores visits each element once, in order, each resolving the range's key to that element.",
 ["inputs", "programs", "histories"],
 "every nesting of the library's stores, every path through it, and every sequence of updates to the parts",
 "Tests check a few literal store/path pairs.",
 [I+"match_path.hpp", I+"match.hpp", I+"get.hpp", I+"store_compose.hpp", I+"store_range.hpp", I+"strong_alias.hpp", I+"apply_action.hpp", I+"context_store.hpp"],
 [dict(name="match_path_fn, store_compose, apply_action_impl", where=I+"match_path.hpp")])

prop("C17", "Conditional views select the first matching branch only",
 "Evaluating a branching description against a store selects exactly one branch: the first one whose type or predicate matches the current value of its path, falling back to the default. Parameter lists are produced in declaration order with nested concatenations, computed values and branches expanded in place, each parameter being the store's current value at its path. The selected index and the branch content always agree, and a mismatching selective path produces no call at all.",
 ["inputs", "programs", "histories"],
 "every store state and every branch/concat/apply/key-lookup description",
 "Tests evaluate a few fixed descriptions on fixed stores.",
 [I+"ui_helper/match_branch.hpp", I+"ui_helper/match_params_spec.hpp", I+"ui_helper/match_path_spec.hpp", I+"detail/match_if.hpp", I+"ui_spec.hpp", I+"path_promise.hpp"],
 [dict(name="get_branch_index, match_params_spec", where=I+"ui_helper/match_branch.hpp")])

prop("C18", "Equal values hash equally and keys are compared by content",
 "Two bindable values that compare equal always have equal hashes, however they were built, and looking up a key finds an entry exactly when an equal key was stored. Identifiers compare equal exactly when all their bytes agree, and freshly generated ones are all distinct, those of one generator and those of different ones. The hash depends on the content only and distinguishes the order of members.",
 ["inputs", "histories"],
 "every value of the bindable kinds (records, tuples, strings, variants, containers, buffers) and every sequence of insertions and lookups",
 "Two literal comparisons are tested.",
 [I+"binder/hash.hpp", I+"detail/hash_combine.hpp", I+"uid.hpp", I+"key.hpp", I+"bind_sequence.hpp"],
 [dict(name="binder::hash_fn", where=I+"binder/hash.hpp")])

prop("C19", "Generated SQL writes children before parents and links them",
 "Inserting an entity runs one insert per row: entities it contains are inserted before it and their new row ids become its references, rows of contained lists are inserted after it and refer to its new row id; every column is bound to the member of the same name, in the same order as the statement lists the columns. Updating writes exactly the entity's columns for exactly its row, and every statement has as many placeholders as bound values. A select names every column of the entity and of the entities it contains, each joined on its own reference, and all the criteria given have to hold.",
 ["programs", "inputs"],
 "every entity shape (scalar members, nested entities, lists of entities, to any depth) and values",
 "Tests compare a few statement strings for fixed entities.",
 [I+"sql_db/insert.hpp", I+"sql_db/update.hpp", I+"sql_db/statement/insert.hpp", I+"sql_db/statement/update.hpp", I+"sql_db/statement/select.hpp", I+"sql_db/action.hpp"],
 [dict(name="insert / update actions", where=I+"sql_db/insert.hpp")])

prop("C20", "Encoded data decodes to the same data",
 "Decoding what was encoded in base64 gives back the original bytes for every byte string, the encoded form has the standard length, alphabet and padding, and any text that is not a valid encoding is refused without producing data.",
 ["inputs"],
 "all byte strings and all texts",
 "Fixed vectors are tested.",
 [I+"util/base64_encode.hpp", I+"util/base64_decode.hpp"],
 [dict(name="base64_encode / base64_decode", where=I+"util/base64_encode.hpp")])

prop("C21", "JSON serialization round-trips every bindable value",
 "Writing a bindable value to JSON text and reading it back into a fresh value yields an equal value, for records, sequences, containers, maps and variants nested to any depth; reading text of the wrong shape raises an error and never silently yields a different value.",
 ["inputs", "programs"],
 "every bindable value and every JSON text",
 "Three literal values are tested.",
 [I+"binder/jsoncpp.hpp", I+"bind_sequence.hpp", I+"bind_map.hpp", I+"bind_variant.hpp"],
 [dict(name="binder::jsoncpp to_string/from_string", where=I+"binder/jsoncpp.hpp")])

prop("C22", "A route printed as a path leads back to the same route",
 "Every route value whose members can be written in a path (text members without '/' and not empty, positive numbers) is printed as a path that, read again, gives the same alternative with equal members. Reading a path gives the route whose name is its first part and which has exactly as many members as the path has further parts, each member equal to its part; a path with an unknown name, missing or extra parts, or a number that is not a number or does not fit its member is reported as not found and never as another route. No path, however long or malformed, is read or written out of bounds.",
 ["inputs", "programs"],
 "every route table (names, number and types of members) and every path text or route value",
 "Tests look up a few literal paths of one table.",
 [I+"webui/route_map.hpp", I+"webui/set_route.hpp"],
 [dict(name="route_map from_string / to_string", where=I+"webui/route_map.hpp")])

prop("C23", "A move slides one tile into the hole beside it, and is heard of exactly if so",
 "In the sliding-tiles example, a move of a place changes the board exactly when there is a tile on it and a hole directly beside it in its row or column; then the tile and such a hole change places and nothing else changes, so that tiles are never lost or duplicated and moving back restores the board. Any other move leaves the board as it was. In a context, the state listeners hear of a move exactly if it changed the board.",
 ["histories", "inputs"],
 "every board size and content and every sequence of moves",
 "Tests make four moves on one board; edges of the board are never met.",
 ["example/tiles/game.hpp"],
 [dict(name="apply_message_impl / move", where="example/tiles/game.hpp")])

prop("C24", "The session cookie is found wherever it stands in the list",
 "Given the text of a list of cookies, the session token that is returned is the text after 'NBDL_SESS=' of the first cookie that starts so, wherever it stands in the list and whatever the other cookies are (also ones without a value, or whose name or value ends with or contains that name), and is empty when there is no such cookie. Nothing outside the text is read.",
 ["inputs"],
 "every text of a cookie list",
 "No test reads more than a few literal lists.",
 [I+"app/detail/cookie_parser.hpp"],
 [dict(name="get_session_cookie", where=I+"app/detail/cookie_parser.hpp")])

prop("C25", "A page shows what its view says of the store, whatever was in it before",
 "Once a view has been rendered, and after every notification that the store has changed, the page shows exactly what the view describes for the state the store is in then, the same as a page rendered anew would: elements, texts, attributes, properties, classes (also conditional ones), the branch of every match and match_if that is selected and no other, one copy of a list's view for every item in order, each next to its siblings in the order of the view. A path that does not match shows no text and sets no conditional attribute or class. Whatever the states were before leaves no trace. Elements that are not in a list stay the same elements. An event calls exactly the handlers of its type that the view has on the element it is for and on those around it, from the inside out, each once, with its parameters looked up in the store as it is then (nothing is called if one does not match) and in the event; a handler may change the store while it runs. Submit events are kept from leaving the page. A renderer that is gone no longer touches the page nor hears of events.",
 ["programs", "histories", "inputs"],
 "every view, every type of store, every sequence of states and events",
 "No native test renders a view; the browser tests render few fixed views and make at most a few changes, and can not be run here without a browser.",
 [I+"webui/detail/dom_manips.hpp", I+"webui/renderer.hpp", I+"webui/detail/event_receiver.hpp", I+"webui/detail/flatten_spec.hpp", I+"ui_spec.hpp"],
 [dict(name="renderer_impl / mut_action_fn", where=I+"webui/detail/dom_manips.hpp"), dict(name="event_receiver", where=I+"webui/detail/event_receiver.hpp")])

prop("C26", "Bindable values become the JavaScript values that stand for them, and come back",
 "The JavaScript binder writes a bindable value of any nesting of maps, sequences, variants, containers, strings, octets, integers, enums and booleans as the JavaScript value that stands for it in JSON (JSON.stringify of it is a document for that value, which the JSON binder reads as the same value), over whatever the handle held before. Reading a JavaScript value that stands for some value of the type gives that value, over whatever the object held before, and leaves the JavaScript value as it was. Strings keep every character, a NUL and those outside ASCII included; integers keep every value of their type. Nothing stays behind in the registry of handles.",
 ["inputs"],
 "every bindable type and every value of it",
 "The browser tests bind a handful of values of few types, and can not be run here without a browser.",
 [I+"binder/js.hpp", I+"detail/js_val.hpp", I+"bind_variant.hpp", I+"bind_sequence.hpp", I+"bind_map.hpp"],
 [dict(name="bind_to_impl / bind_from_impl", where=I+"binder/js.hpp")])

prop("C27", "The route in the store is the one in the page's address",
 "With a navigation producer in its context, an application whose context has been started, or that has set a route (as a route of the table, as the variant, or as text), or whose user went back or forth in the browser's history, has in its store exactly what the page's address then says: the text behind the prefix, every character as it was set, and the route that the table makes of it (none outside the prefix). Setting a route makes the address say it and adds one entry to the history, so that going back returns to what was there before; setting no route leaves the address. Observers of the state are told of the text and of the route when they have changed. A context that is gone, or has been replaced by another, no longer hears of the browser.",
 ["histories", "inputs"],
 "every table of routes, prefix, text in a route, sequence of routes set and of steps in the history",
 "The browser test sets three routes, and can not be run here without a browser.",
 [I+"webui/nav_route.hpp", I+"webui/route_map.hpp", I+"webui/detail/event_receiver.hpp"],
 [dict(name="popstate_event_receiver", where=I+"webui/nav_route.hpp"), dict(name="web_route_update", where=I+"webui/nav_route.hpp")])

prop("C28", "A browser's WebSocket endpoint tells of ready, every message, and close, and sends what it is given",
 "An endpoint opened over a browser's WebSocket connects to the address given. Its handlers are told of ready once and first, then of every message while the connection is open, in order and each with the payload the peer sent (every octet of a binary message or of a text as UTF-8; for a JSON payload the value that the text stands for), and of close once and last, also when the connection could not be made. A message that is no JSON is not told of and disturbs none that follow. Messages sent while the connection is open, from handlers or outside, reach the peer exactly and in order; none are sent otherwise. Payloads that were kept do not change by later messages. An endpoint that is destroyed, even by one of its handlers or while connecting, closes its connection, hears of nothing more and leaves nothing behind. Endpoints do not disturb each other, nor ones that come to live where others have been.",
 ["schedules", "inputs"],
 "every sequence of connecting, messages, failures, sends, closing and destroying, of any number of endpoints; every payload",
 "The browser tests exchange six ASCII texts with a server; binary payloads and destroying are not tested; they can not be run here without a browser.",
 [I+"websocket_api/client_endpoint.hpp", I+"websocket_api/detail/endpoint_impl.hpp", I+"websocket_api/detail/convert_payload.hpp", I+"websocket_api/detail/event_receiver.hpp", I+"endpoint_handler.hpp"],
 [dict(name="endpoint_impl", where=I+"websocket_api/detail/endpoint_impl.hpp"), dict(name="convert_payload", where=I+"websocket_api/detail/convert_payload.hpp")])

prop("C29", "A handle has the JavaScript value it was given, and a promise of JavaScript settles once",
 "A js::val refers to the JavaScript value that was put in it, by identity, until it is given another: a copy refers to the same value, a move takes the value and leaves undefined, swapping exchanges, transforming replaces, and no operation on a handle (however it is stored: in containers, captured, destroyed and made anew where another was) changes what another refers to. hana::equal of handles is strict equality of their values. get_element_by_id gives the element of that name or null. A callback calls its function once each time it is called from JavaScript, with the argument it is called with, also after being moved. A promise made of JavaScript code sees the captured values in order under their names, and continues with the value it is resolved with, or its handler of rejections with the one it is rejected with, once: whatever settles it first, at once or later, later attempts have no effect. Promises in sequence start one after the other. When everything is gone nothing is left in the registry of handles.",
 ["histories", "inputs"],
 "every sequence of operations on any number of handles, lists of them, callbacks and promises; every value",
 "The browser tests make a few handles and settle a few promises once, at once; they can not be run here without a browser.",
 [I+"js.hpp", I+"fwd/js.hpp", I+"detail/js_val.hpp", I+"macros/NBDL_JS_PROMISE.hpp", I+"webui/detail/event_receiver.hpp"],
 [dict(name="val", where=I+"fwd/js.hpp"), dict(name="make_promise", where=I+"macros/NBDL_JS_PROMISE.hpp"), dict(name="callback_fn", where=I+"js.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
