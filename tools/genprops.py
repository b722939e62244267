import json
P=[]
def prop(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
AR='src/actor/actor_ref.rs';SP='src/actor/spawn.rs';KI='src/actor/kind.rs';MB='src/mailbox.rs';ASK='src/request/ask.rs';TELL='src/request/tell.rs';MSG='src/message.rs';RE='src/reply.rs';ER='src/error.rs'
prop('C01','Messages are handled one at a time, exactly once, in per-sender order',
 "An actor handles its messages strictly one at a time. Every message accepted by a running actor that is later stopped gracefully is handled exactly once with its contents intact, and the accepted messages of one sender are handled in the order that sender sent them. This holds whichever way the messages were sent (tell, ask, queued ask, forwarding, recipient; with or without waiting), with any mailbox, and also when handlers panic and the actor chooses to continue.",
 ['schedules','histories','programs'],"every number of senders, mix of sending calls, mailbox kind and capacity, handler duration and interleaving of senders with the actor",
 "The tests send a handful of messages from one task; order and loss depend on the interleaving of many senders with a full mailbox, start-up buffering and recovered panics.",
 [MB,SP,KI,ASK,TELL,MSG],[('mailbox channel','src/mailbox.rs MailboxSender::send, MailboxReceiver::recv'),('receive loop','src/actor/spawn.rs recv_mailbox_loop'),('start-up buffer','src/actor/kind.rs ActorBehaviour::handle_message')],
 [('start-up buffer','signals held back until start-up is finished','src/actor/kind.rs ActorBehaviour')],['message handlers','results of the sending calls'])
prop('C02','The result of sending a message tells the truth about it',
 "A send that succeeds means the actor handles that message unless the actor ends first; a send that fails because the actor is not running, its mailbox is full or waiting for space timed out means the message is never handled, and the error gives back that same message. Each kind of failure is reported only when it is the case: not running only for an actor which has ended, full or timed out for space only for a bounded mailbox without space, and a reply timeout only when one was set and has elapsed. An error returned by a handler reaches the asker as exactly that error.",
 ['schedules','histories','inputs'],"every sending call of actor references and recipients, in every state of the actor (starting, busy, full, stopping, killed, ended), at every moment relative to its stop or kill",
 "Tests check single outcomes in a fixed state; the promise is about sends racing with stops, kills and a filling mailbox.",
 [ASK,TELL,ER,AR],[('error conversion','src/error.rs From impls for SendError'),('send paths','src/request/ask.rs, src/request/tell.rs')],None,['results of sending calls','message handlers'])
prop('C03','Every ask is answered with its own reply, or fails; it never hangs',
 "The reply an asker receives is the one its own message's handler produced, however many asks are in flight, of whatever reply types, and in whatever order pending replies are awaited or dropped. Each ask completes: with the reply when the handler has replied, and with an error once the actor has ended (or the handler panicked, or the reply was abandoned) without replying, even with no timeout set. An asker that gave up (timeout or dropped future) never disturbs the actor or anyone else's reply.",
 ['schedules','histories','crash_points'],"every number of concurrent askers, order of awaiting or dropping pending replies, and every point at which the actor panics, stops or is killed",
 "Tests ask one question at a time of a healthy actor; hangs and mix-ups need concurrent askers and an actor dying at a particular point.",
 [ASK,RE,MSG,KI],[('reply channel per ask','src/request/ask.rs AskRequest'),('reply sender in context','src/message.rs Context'),('discard of unhandled messages','src/actor/spawn.rs run_actor_lifecycle')],None,['ask results'])
prop('C04','Nothing is handled before start-up has finished, and nothing sent is lost',
 "No message is handled until the actor's start hook has finished successfully, and if it fails none ever is. Messages the actor sent itself in its start hook are handled before any message others had sent by then; the others' messages are kept and follow, each sender's in order and each exactly once. This holds for any mailbox capacity, and when a handler among those first messages panics and the actor continues, or a stop was already requested.",
 ['schedules','histories','configurations'],"every interleaving of outside senders with a start hook of any duration and outcome, every number of self-sent messages, every mailbox capacity",
 "Tests use an instant start hook or a single message; the ordering guarantee is about races with a slow start hook and small mailboxes.",
 [SP,KI,AR],[('buffering until start-up finished','src/actor/kind.rs handle_message, handle_startup_finished'),('start-up finished marker','src/actor/spawn.rs run_actor_lifecycle'),('current actor marker','src/actor/actor_ref.rs CURRENT_ACTOR_ID')],
 [('finished_startup','whether outside messages may be handled','src/actor/kind.rs')],['start hook','message handlers'])
prop('C05','Waiting for an actor to start or shut down ends exactly when it has',
 "Waiting for an actor's start-up completes, for every waiter whenever it began waiting, once the start hook has finished in whatever way, and never before. Waiting for its shutdown completes, for every waiter, once the actor has ended and its stop hook has finished, and never before. The waits that report a result report success exactly when the hook succeeded, and otherwise the error that very hook returned.",
 ['schedules','crash_points','histories'],"every number of waiters, every moment a waiter begins, every way an actor starts, fails, stops, is killed, panics or is dropped, with any mailbox",
 "The tests wait once on an actor which starts and stops normally; a waiter that hangs or returns early needs a particular failure or a particular moment.",
 [AR,SP],[('start-up signal','src/actor/spawn.rs run_actor_lifecycle startup_semaphore'),('mailbox closing last','src/actor/spawn.rs run_actor_lifecycle'),('waits','src/actor/actor_ref.rs wait_for_*')],
 [('startup_error, shutdown_error','outcome of the hooks','src/actor/actor_ref.rs ActorRef')],['wait_for_startup(_result)','wait_for_shutdown(_result)','on_start','on_stop'])
prop('C06','A graceful stop handles everything sent before it and nothing after',
 "After a graceful stop is requested, every message accepted before the request is still handled, messages accepted after it never are, and the actor then ends with reason normal. Asks left behind the stop fail instead of hanging, and later sends and stop requests report that the actor is not running. This holds for any number and origin of stop requests, during start-up, with a full mailbox, and when earlier messages panic and the actor continues.",
 ['schedules','histories'],"every interleaving of senders with stop requests, at every stage of the actor's life, and every mailbox capacity",
 "Tests stop an idle actor; what is before or after the stop only matters with a loaded mailbox and concurrent senders.",
 [AR,KI,SP],[('stop signal queued behind messages','src/actor/actor_ref.rs stop_gracefully'),('handling of the stop signal','src/actor/kind.rs handle_stop, resume')],None,['message handlers','stop hook reason'])
prop('C07','A killed actor stops at once, whatever it is doing',
 "Once an actor is killed, a handler in progress goes no further than its next suspension point and no other message is handled, even with a full mailbox or a stop already requested. Its stop hook still runs once with reason killed, links are notified of that reason, and everyone waiting for it, asking it or sending to it is released. Killing during start-up takes effect when the start hook is done; killing twice, or killing an ended actor, changes nothing.",
 ['schedules','crash_points'],"every point in an actor's life at which the kill lands: before it runs, in the start hook, idle, inside any handler or hook, draining its mailbox, stopping, ended",
 "A kill at a chosen suspension point is not something the tests place; they never kill a busy actor.",
 [AR,SP],[('abort handle around the loop','src/actor/spawn.rs run_actor_lifecycle Abortable'),('kill','src/actor/actor_ref.rs kill')],None,['handler steps','stop hook reason','link death notifications'])
prop('C08','Lifecycle hooks run in order, exactly once, with one agreed stop reason',
 "The start hook runs exactly once, before everything else; the stop hook runs exactly once, after everything else, no matter how the actor ends (stopped, killed, dropped, panicked, failed to start, brought down by a link); no two hooks or handlers of an actor ever overlap. The reason given to the stop hook is the one returned by the actor's task together with the actor's final state, and the one its links are told. A start or stop hook that fails or panics never prevents the rest of the shutdown, and is reported once to the installed error hook.",
 ['schedules','crash_points','fault_sequences'],"every way of ending, every hook failing by error or panic, at every moment",
 "The tests cover one or two normal endings; the combinations of failing hooks, reasons and moments are the point.",
 [SP,KI,'src/actor.rs',ER],[('lifecycle','src/actor/spawn.rs run_actor_lifecycle'),('shutdown decisions','src/actor/kind.rs on_shutdown'),('error hook','src/error.rs invoke_actor_error_hook')],None,['lifecycle hooks','join handle of a prepared actor','error hook'])
prop('C09','An actor lives exactly as long as something strongly refers to it',
 "An actor which is not stopped otherwise stays alive while any strong reference or recipient to it exists, and once the last one is gone it handles the messages already accepted and ends with reason normal. Weak references and weak recipients never keep it alive, upgrade while it can still be reached, and never after it is gone; links do not keep it alive either. The strong and weak counts reported by every kind of reference are the numbers of such references that exist.",
 ['histories','schedules'],"every history of cloning, downgrading, upgrading, converting and dropping references, interleaved with sends and the actor's life",
 "Tests check one drop; leaks and premature stops come from particular histories of clones, upgrades and pending messages.",
 [AR,SP,MB],[('mailbox sender counts','src/mailbox.rs strong_count, weak_count, downgrade, upgrade'),('the running actor holds only a weak reference','src/actor/spawn.rs run_actor_lifecycle')],None,['is_alive, strong_count, weak_count, upgrade','stop hook'])
prop('C10','A panic or failed tell stays inside the actor and goes to its panic hook once',
 "A panic in a handler, or an error returned for a message nobody awaits a reply to, calls that actor's panic hook exactly once with that very panic or error, and affects no other actor; an error returned to an asker does not call it. If the hook continues, the actor keeps its state and goes on with the next message as if nothing happened, and the asker of a panicked message gets an error; if it breaks, fails or panics, the actor stops with the corresponding reason, which by default is the panic itself.",
 ['schedules','fault_sequences','inputs'],"every sequence of panics (of any payload), errors and successes, by tell or ask, in every phase of the actor's life, and every answer of the panic hook",
 "The tests panic once; state, queue and start-up buffer after repeated recovery, and the routing of each failure, depend on the sequence.",
 [KI,MSG,ER],[('unwinding caught per handler','src/actor/kind.rs handle_message'),('error of a tell','src/message.rs DynMessage::handle_dyn'),('panic values','src/error.rs PanicError')],None,['on_panic','ask results','handlers'])
prop('C11','A linked actor is told of the other’s death exactly once, with who and why',
 "When an actor ends, every actor linked to it at that moment and still running is notified exactly once, with the ended actor's identity and its actual stop reason; actors never linked to it or unlinked from it before are not notified. Links are symmetric, may be made and removed in any way and any number of times, and do not survive the notification. By default an actor ignores a normal death and stops for any other with a reason naming the dead link and its reason.",
 ['histories','schedules'],"every graph of links and history of linking, unlinking (sync, async, at spawn) and deaths for every reason, with any mailbox state",
 "Tests link two actors once; duplicates, omissions and stale links show only in longer histories and larger graphs.",
 [AR,SP,KI,'src/actor.rs'],[('link tables','src/actor/actor_ref.rs link, unlink'),('notification when ending','src/actor/spawn.rs run_actor_lifecycle'),('removal of a dead link','src/actor/kind.rs handle_link_died')],
 [('links','identity to notification channel','src/actor/actor_ref.rs Links')],['on_link_died','on_stop reason'])
prop('C12','Linking, unlinking and dying together never deadlock',
 "Any number of linked actors may be linked and unlinked by concurrent tasks in any direction, and may stop, die of each other and be killed at the same time, with mailboxes of any capacity in any state: every such call returns and every actor that should end does end.",
 ['schedules'],"every interleaving of link, unlink, death and notification among any group of actors, including full mailboxes",
 "A deadlock needs two tasks locking in opposite order or two full mailboxes at the same moment, which sequential tests never produce.",
 [AR,SP],[('ordered locking of link tables','src/actor/actor_ref.rs lock_links'),('draining the mailbox while notifying','src/actor/spawn.rs run_actor_lifecycle')],None,['completion of link, unlink, wait_for_shutdown'])
prop('C13','Mailbox capacity, waiting and timeouts are respected exactly',
 "A bounded mailbox of capacity n accepts exactly n messages while its actor handles none: the next immediate send fails as full with the message returned, and a waiting send completes only when space is freed, waiting senders being served in order. A send with a mailbox timeout fails when exactly that time passed without space and an ask with a reply timeout when exactly that time passed without a reply after the message was accepted; a message reported as timed out for space is never handled. An unbounded mailbox never fills, waits or times out for space.",
 ['inputs','schedules','configurations'],"every capacity, number of waiting senders, combination and size of timeouts, and schedule of the actor freeing space",
 "Tests use one capacity and one timeout with generous margins; exactness at the boundary is about all of them.",
 [MB,ASK,TELL],[('channel capacity','src/mailbox.rs bounded'),('timeouts','src/request/ask.rs, src/request/tell.rs')],None,['results and virtual completion times of sends'])
prop('C14','A forwarded or delegated reply reaches the original asker exactly once',
 "When a handler forwards a message to another actor, in any of the ways offered and through any number of actors, the original asker receives the final handler's reply or error; when it delegates the reply, the asker receives what is later sent through the reply handle, from anywhere and even after the actor ended. If forwarding fails, the asker receives that failure with the message, and forwarding a message nobody asked for delivers it without a reply. A reply handle dropped unused releases the asker with an error.",
 ['programs','schedules','histories'],"every chain of forwards and delegations, kind of forwarding call, reply type, error, and state of the next actor",
 "Tests forward once to a healthy actor; chains, full or dead targets, and late or dropped handles are not sampled.",
 [MSG,RE,ASK,ER],[('context forward and reply handle','src/message.rs Context'),('reply conversion','src/reply.rs ForwardedReply, DelegatedReply'),('error downcast','src/error.rs BoxSendError')],None,['ask results','handlers'])
prop('C15','An attached stream reaches the actor complete and in order',
 "Attaching a stream to an actor delivers the start value, then every item of the stream in order, then the finish value, each exactly once, with backpressure from the mailbox and interleaved with other messages in any way. If the actor ends first, the attachment ends too: it takes no further items than it has to, hands back the stream or the message that could not be delivered, and never hangs, even on a stream that yields nothing more.",
 ['schedules','inputs','crash_points'],"every stream (length, pace, bursts), mailbox, number of streams attached at once, and moment at which the actor ends",
 "The test attaches one short stream to an actor that stays alive.",
 [AR],[('stream task','src/actor/actor_ref.rs attach_stream')],None,['handlers','join handle of the attachment'])
prop('C16','A recipient behaves exactly like the actor reference it came from',
 "Any operation available on a recipient or weak recipient (sending in every way, identity, liveness, counts, whether it is the current actor, stopping, killing, waiting, cloning, downgrading, upgrading) has the same effect and result as on a reference to the same actor in the same state.",
 ['histories','programs'],"every operation, in every state of the actor, in every history of conversions between references, recipients and their weak forms",
 "Recipients are tested for a single send; equivalence is about every operation in every state.",
 [AR,TELL],[('type-erased handlers','src/actor/actor_ref.rs MessageHandler, WeakMessageHandler'),('recipient requests','src/request/tell.rs RecipientTellRequest')],None,['results of paired operations'])
prop('C17','A pool handles each dispatch on one live worker and keeps its size',
 "Each message dispatched to a pool is handled by exactly one worker, a least busy one, and its reply or error reaches the dispatcher; each broadcast is delivered once to every worker. When workers end in any way, including all at once, each is replaced through the factory, so the pool keeps its size, never stops because of them, and messages dispatched afterwards are handled by live workers; a dispatched ask never hangs.",
 ['schedules','histories','crash_points'],"every pool size, factory kind, worker mailbox, load, mix of dispatches and broadcasts by tell or ask, and every moment and way workers end",
 "Tests dispatch a few messages to healthy workers; balance and replacement depend on concurrent load and on deaths at particular moments.",
 ['actors/src/pool.rs'],[('least connections','actors/src/pool.rs next_worker'),('replacement','actors/src/pool.rs replace_worker, on_link_died'),('reply conversion','actors/src/pool.rs WorkerReply')],
 [('workers','live workers and their load','actors/src/pool.rs ActorPool')],['inner actors of the pool','factory calls','dispatch results'])
prop('C18','A published message reaches exactly the matching subscribers, in order',
 "A message published to a publish-subscribe actor is delivered exactly once to each live actor subscribed at that moment whose filter accepts it, and to nobody else; subscribing an actor again replaces its earlier filter. Each subscriber receives messages in the order they were published. A subscriber that has ended is forgotten without affecting the others or the publisher.",
 ['histories','inputs'],"every history of subscribing, re-subscribing with filters, publishing (as messages or directly) and subscribers ending",
 "The tests cover one or two subscribers; the guarantee quantifies over histories with deaths and filters.",
 ['actors/src/pubsub.rs'],[('subscriber table','actors/src/pubsub.rs PubSub::publish, subscribe, subscribe_filter')],None,['subscribers’ handlers'])
prop('C19','A broker delivers by topic pattern, to matching subscriptions only',
 "A message published to a topic is offered once for each live subscription whose glob pattern matches the topic (case-sensitively, with * and ? not crossing a slash), and to nobody else, in publication order (unless a spawned delivery kind is used); unsubscribing by pattern or entirely takes effect for all later publications. Guaranteed and timed delivery wait for mailbox space, timed only for its limit; best effort skips full subscribers; the spawned kinds do not hold up the broker. Subscribers found to have ended are removed and never disturb the others.",
 ['histories','inputs','configurations'],"every set of patterns, topics, subscribers and their mailbox states and lives, every delivery strategy and history of operations",
 "The tests use one pattern and strategy; matching and delivery quantify over patterns, topics, histories and slow or dead subscribers.",
 ['actors/src/broker.rs','actors/src/lib.rs'],[('pattern table','actors/src/broker.rs Broker'),('delivery strategies','actors/src/broker.rs Publish handler')],None,['subscribers’ handlers','publish results'])
prop('C20','A message bus delivers each message to everyone registered for its type',
 "A message published on a bus is offered once for each live registration for its exact type, in publication order (unless a spawned delivery kind is used), and to nobody registered only for other types; unregistering for a type stops that type only. Guaranteed and timed delivery wait for mailbox space, timed only for its limit; best effort skips full recipients; the spawned kinds do not hold up the bus. Recipients found to have ended are removed and never disturb the others.",
 ['histories','configurations'],"every history of registrations for several types, unregistrations, publications and ends of recipients, with every delivery strategy",
 "The tests register one recipient for one type.",
 ['actors/src/message_bus.rs','actors/src/lib.rs'],[('registration table','actors/src/message_bus.rs MessageBus'),('delivery strategies','actors/src/message_bus.rs Publish handler')],None,['recipients’ handlers','publish results'])
prop('C21','The local registry behaves like one atomic map from names to actors',
 "Registering, looking up, listing and removing names concurrently from any number of tasks and threads is linearizable: every result is one that a single map, with the operations applied one at a time in an order respecting real time, would give. A lookup returns the very actor registered last under that name, reports a type mismatch when it has another type, and nothing when the name is not registered; a registered actor is kept alive.",
 ['histories','schedules','inputs'],"every concurrent history of registry operations over any names, borrowed or owned, and actor types",
 "Tests register and look up once, sequentially.",
 ['src/registry.rs',AR],[('global registry','src/registry.rs ACTOR_REGISTRY'),('register, lookup','src/actor/actor_ref.rs register, lookup')],None,['results of registry operations'])
prop('C22','Actor identities are unique, stable and survive encoding',
 "No two actors created in a process ever have equal identities, from any threads, and every reference to one actor, of whatever kind, has the same one, before and after joining a network. Encoding an identity to bytes or through a serializer and decoding it gives an equal identity with the same sequence number and peer, also on another node; equal identities have equal hashes at all times. Malformed bytes are rejected with an error, never a panic or a different identity.",
 ['inputs','schedules','configurations'],"every identity (any sequence number, any peer or none), every byte string of every length, and every number of threads creating actors",
 "Unit tests encode two fixed identities; the guarantee is about all of them and all malformed inputs.",
 ['src/actor/id.rs'],[('counter','src/actor/id.rs ActorID::generate'),('encoding','src/actor/id.rs to_bytes, from_bytes, Serialize, Deserialize'),('equality and hash','src/actor/id.rs PeerIdKind')],None,['ActorID values'])
prop('C23','A remote message has the same outcome as a local one, or a truthful error',
 "A message sent to an actor of another node, or of the own node through a remote reference, is handled at most once, with equal contents, and gives the reply or the handler error the same message gets locally; messages awaited one after another are handled in that order. Every failure is reported as what it is: unknown actor or message, wrong actor type, actor not running or stopped, mailbox full, timeout, handler error, or the side on which encoding failed. Every such call completes, and no message a peer sends, however malformed, stops the node.",
 ['inputs','histories','fault_sequences'],"every message content, outcome of the handler, state of the actor, timeout, encoding failure, and number of concurrent requests between nodes",
 "No existing test sends a remote message.",
 ['src/remote/swarm.rs','src/remote/_internal.rs',ASK,TELL],[('remote requests','src/request/ask.rs remote_ask, src/request/tell.rs remote_tell'),('dispatch on the node','src/remote/_internal.rs ask, tell'),('swarm behaviour','src/remote/swarm.rs SwarmRequest, SwarmResponse')],None,['replies and errors of remote calls','handlers on the node'])
prop('C24','Links across nodes notify exactly once of death or disconnection',
 "An actor linked with an actor of another node is notified exactly once when that actor ends, with its identity and reason, or when the connection to its node is lost, as a disconnected peer; after unlinking it is not notified. The notification acts like a local one, and losing one of several connections to a peer notifies nobody.",
 ['histories','fault_sequences','crash_points'],"every history of linking and unlinking across nodes, ways of dying, and disconnections or crashes of nodes with any number of connections",
 "No existing test links across nodes.",
 ['src/remote/swarm.rs','src/remote/_internal.rs',AR,SP],[('remote links','src/actor/actor_ref.rs link_remote, unlink_remote; src/remote/_internal.rs link, unlink, signal_link_died'),('disconnection','src/remote/swarm.rs ConnectionClosed handling')],None,['on_link_died on both nodes'])
prop('C25','A name registered on one node is found from the others, and only then',
 "An actor registered under a name is found by that name from every connected node and its own, as a reference which reaches that very actor; a name nobody registered, or unregistered since, is not found, and looking it up as another actor type reports that. A registration that cannot be stored reports an error; no registration, lookup or unregistration, and no record found in the network, stops a node or hangs its caller.",
 ['histories','inputs','fault_sequences'],"every history of registering, replacing, unregistering and looking up names of any form across nodes, including hostile records and full storage",
 "No existing test registers or looks up across nodes.",
 ['src/remote/swarm.rs','src/remote.rs'],[('registry on the distributed hash table','src/remote/swarm.rs register, lookup, lookup_local, unregister'),('record format','src/remote/swarm.rs ActorRegistration')],None,['results of register, lookup, unregister'])
prop('C26','No workload makes the library access memory unsafely or race on data',
 "Using the public API from any number of threads, including replacing the global error hook while actors fail, never causes undefined behaviour, a data race, a use of freed memory or a leak of actors that have ended; a failing hook is reported to a hook function that was installed at that moment.",
 ['schedules','programs'],"every safe program using the library and every interleaving of its threads",
 "Ordinary tests observe results, not memory accesses, and do not run under a race detector.",
 [ER,AR,MB],[('type-erased error hook','src/error.rs set_actor_error_hook, invoke_actor_error_hook'),('shared actor state','src/actor/actor_ref.rs ActorRef')],None,['Miri, ThreadSanitizer and AddressSanitizer reports','drop counts'])
prop('C27','Blocking calls and threaded actors give the same results as async ones',
 "Each blocking form of sending, forwarding, queueing and linking has the same effects and results as its async form, from any thread outside the runtime, and completes whenever that one would. An actor spawned in its own thread behaves like one spawned as a task: the same ordering, lifecycle, failure handling, links and references.",
 ['schedules','programs'],"every blocking call in every state of the actor, from any number of threads, and every workload on threaded actors",
 "Tests call each blocking method at most once on an idle actor.",
 [ASK,TELL,AR,SP,MSG],[('blocking sends','src/request/ask.rs, src/request/tell.rs blocking_*'),('threaded spawn','src/actor/spawn.rs spawn_in_thread')],None,['results of blocking calls','handlers of threaded actors'])
prop('C28','Error values keep their kind and contents through every conversion',
 "Mapping, flattening, boxing and downcasting send errors preserve the kind of error and its message and inner error exactly, change only what they are asked to change, and undo each other where they are inverse; a downcast to the wrong type gives the original back. A captured panic gives access to exactly the value that was thrown or returned, whenever its type is asked for, from every clone.",
 ['inputs','programs'],"every error value of every kind, with every nesting, message and error type, and every sequence of conversions; every panic value",
 "Unit tests convert a single error at most.",
 [ER],[('conversions','src/error.rs SendError, BoxSendError'),('panic values','src/error.rs PanicError')],None,['error values'])
prop('C29','Custom message hooks and receive loops see everything, in order, exactly once',
 "An actor that overrides how messages are processed gets every message for it through that hook exactly once and in order, including those buffered during start-up, and what it does with the message (handle, drop, reply itself, hand it to another task) determines the outcome. An actor that overrides how signals are received, and passes on what it receives, behaves like one that does not, and may end itself by ending its signals. The mailbox functions offered for that agree with each other on contents, counts and closing.",
 ['programs','histories'],"every hook that drops, handles, delays or replies to messages, every receive loop mixing in other events, on any mailbox",
 "No existing test overrides these hooks under load.",
 ['src/actor.rs',KI,MB],[('on_message hook','src/actor/kind.rs handle_message'),('next hook','src/actor/spawn.rs recv_mailbox_loop'),('mailbox receiver','src/mailbox.rs MailboxReceiver')],None,['hooks','ask results'])
prop('C30','Generated messages and derives behave like the code they stand for',
 "A message generated from an annotated method carries exactly that method's arguments, and sending it calls the method with them and gives back its return value, for sync and async methods, generic or not, with any argument and return types that messages and replies may have. Derived actors and replies behave like the hand-written equivalents.",
 ['programs','inputs'],"every annotated method form and every argument value",
 "Doc examples compile a few forms and send one message.",
 ['macros/src/messages.rs','macros/src/derive_actor.rs','macros/src/derive_reply.rs'],[('message generation','macros/src/messages.rs'),('derives','macros/src/derive_actor.rs, macros/src/derive_reply.rs')],None,['ask and tell results'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
