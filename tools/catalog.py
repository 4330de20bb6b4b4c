"""The properties, in one place: writes properties.jsonl and MANIFEST.json (python3 tools/catalog.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHED = "stateless model checking of the real code under a controlled scheduler (deviation-bounded, exhaustive)"
HIST = "stateless model checking: exhaustive enumeration of operation/fault histories replayed on the real code"
ENUM = "bounded exhaustive enumeration of inputs and histories executed on the real code against a reference model"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    p = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
    }
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append((p, technique, note))


D = "dataplicity/"

prop("C01", "No server message can wedge or end the session",
     "Whatever bytes the server sends as a message - truncated, malformed, of unknown kind, with missing, extra or "
     "ill-typed fields, or absurdly nested - the agent deals with it in bounded time and keeps serving: the next ping "
     "on the same connection is answered. A malformed or truncated message is never acted upon.",
     ["inputs"], "every message string up to a length over the structural alphabet, every prefix/edit/arity/type "
     "mutation of every packet kind, every argument of every instruction missing or ill-typed",
     "Tests decode a handful of fixed strings; they never deliver a malformed message to a running session.",
     [D + "m2m/bencode.py", D + "m2m/wsclient.py", D + "m2m/packetbase.py", D + "m2m/dispatcher.py"],
     [("decode errors are caught and the packet dropped", D + "m2m/wsclient.py on_binary/on_packet"),
      ("field validation", D + "m2m/packetbase.py"), ("event loop catches handler errors", D + "m2m/wsclient.py run")],
     ENUM, "Exhaustive over the stated message families; each message runs through the real session loop and is "
     "followed by a ping that must be answered; livelock is detected by a step horizon.")

prop("C02", "Packets survive the wire field for field",
     "Every packet the agent can send is the documented encoding of its type number and fields, and every packet it "
     "receives is decoded to exactly the fields that were encoded, in order and with their types. What has no encoding, "
     "and fields of the wrong kind, are refused rather than sent or accepted as something else.",
     ["inputs"], "every packet kind with all combinations of boundary field values; all nested values up to a depth; all "
     "proper prefixes of small containers",
     "The codec tests use a dozen values and do not cover field order, kinds or every packet.",
     [D + "m2m/bencode.py", D + "m2m/packets.py", D + "m2m/packetbase.py", D + "m2m/dispatcher.py"],
     [("encode/decode", D + "m2m/bencode.py"), ("packet attribute tables", D + "m2m/packets.py")],
     ENUM, "Compared against an independent strict codec and an independent table of packet formats.")

prop("C03", "Sessions join once and the identity is registered until acknowledged",
     "Each time a connection becomes ready the agent asks to join exactly once; the identity the server then assigns is "
     "registered with the web API, retried on every poll until the API acknowledges it, and not sent again once it has. "
     "A lost connection forgets the identity, and connecting is retried for ever, at most about half a minute apart.",
     ["histories", "fault_sequences"], "every sequence of connect/poll/identity/drop events to a depth, with every API "
     "outcome at every registration",
     "No test drives the session through reconnects and API failures.",
     [D + "m2m/wsclient.py", D + "m2mmanager.py", D + "client.py"],
     [("join on ready, identity dropped on disconnect", D + "m2m/wsclient.py on_ready/on_disconnected"),
      ("notified identity", D + "m2mmanager.py set_identity"), ("result checks", D + "client.py set_m2m_identity")],
     HIST, "All event histories to the stated depth over the real client, manager and lomond reconnect loop.")

prop("C04", "Channel data reaches its own service, once, in order",
     "Data and control messages the server routes to a channel are delivered to that channel's service and to no other, "
     "exactly once and in the order sent, however traffic of several channels is interleaved. What a service sends "
     "leaves on its own channel only, in the order it was written.",
     ["histories", "schedules"], "all interleavings of traffic for several channels and service kinds, all schedules of "
     "their threads up to a preemption bound",
     "Tests use one mock channel at a time and never interleave services.",
     [D + "m2m/wsclient.py", D + "m2mmanager.py", D + "m2m/echoservice.py", D + "portforward.py"],
     [("channel table", D + "m2m/wsclient.py get_channel/handle_route"),
      ("callbacks", D + "m2m/wsclient.py Channel.set_callbacks")],
     SCHED, "Every history and every schedule within the bound runs the real services over virtual sockets and ptys.")

prop("C05", "Closed channels stay closed; reused numbers and reconnects start fresh",
     "When the server closes a channel, or the connection is lost, the channel's service is told exactly once, is given "
     "nothing that arrives afterwards and sends nothing more on it. A channel number used again, on the same or on a new "
     "connection, starts as a new channel that shares no data, service or closed state with the previous one, and "
     "closing one channel leaves the others as they are.",
     ["histories"], "all sequences of open/data/control/close/drop/reopen over several channel numbers to a depth",
     "No test closes or reuses a channel of a live session.",
     [D + "m2m/wsclient.py"],
     [("channel close and removal", D + "m2m/wsclient.py on_notify_close"),
      ("all channels closed on disconnect", D + "m2m/wsclient.py hard_close_channels")],
     HIST, "All histories to the stated depth, compared with a reference channel table.")

prop("C06", "Messages sent by concurrent services arrive intact",
     "However many services, threads and replies send at the same time, and however their sends interleave with the "
     "session's own traffic, the server receives every message once, intact and decodable - with and without "
     "compression - and each thread's messages in the order it sent them.",
     ["schedules"], "all schedules of 2-3 sending threads up to a preemption bound, statement level, in the agent and in "
     "the websocket library",
     "Tests never send from two threads; a race shows up as a corrupt frame once in thousands of runs.",
     [D + "m2m/wsclient.py"],
     [("sends are serialized by a lock", D + "m2m/wsclient.py send_bytes")],
     SCHED, "Uses the real lomond websocket over a virtual socket; the server side parses RFC 6455 frames and inflates "
     "the shared compression context.")

prop("C07", "Buffered channel reads lose, repeat and reorder nothing",
     "Data that arrives on a channel nobody listens to yet is kept and can be read later in pieces of any size: the "
     "concatenation of everything read is exactly what arrived, in order, even if the channel is closed meanwhile. A reader that waits for data is woken when "
     "there is some, and one with a timeout gets nothing only when nothing arrived in time.",
     ["schedules", "histories"], "all schedules of a writer and readers up to a preemption bound; all sequences of message "
     "and read sizes",
     "Tests read single threaded with two sizes.",
     [D + "m2m/wsclient.py"],
     [("deque, lock and event", D + "m2m/wsclient.py Channel.on_data/read")],
     SCHED, "Real Channel objects under the controlled scheduler, statement-level preemption.")

prop("C08", "Pings and echoes are answered exactly, whatever else is going on",
     "Every ping is answered by exactly one pong carrying the first 1024 bytes of its data, in order; an echo channel "
     "sends back every message it is given unchanged and in order. Both keep working while other services run, block "
     "or fail.",
     ["histories", "inputs"], "all sequences of pings, echoes and service starts and failures to a depth; payload sizes "
     "around every boundary",
     "Tests check one echo on a mock.",
     [D + "m2m/wsclient.py", D + "m2m/echoservice.py", D + "m2mmanager.py"],
     [("ping handler", D + "m2m/wsclient.py handle_ping"), ("echo", D + "m2m/echoservice.py")],
     HIST, "All histories to the stated depth through the real session.")

prop("C09", "Service and terminal limits are enforced and every slot is given back",
     "No more services run at once than the configured limit, nor more terminals than theirs, the two being counted "
     "apart; a request beyond the limit, or one whose thread can not be started, is answered with a busy or error reply "
     "and its channel is closed. Whatever way a service ends, its slot can be used again, so capacity never shrinks "
     "or grows.",
     ["schedules", "histories", "fault_sequences"], "all sequences of starts, ends, thread start failures and connection "
     "losses to a depth at small limits; all schedules of concurrent ends and starts up to a preemption bound",
     "Tests exercise the counter alone, single threaded, not the services that hold slots.",
     [D + "limiter.py", D + "m2mmanager.py", D + "portforward.py", D + "m2m/fileservice.py", D + "m2m/commandservice.py",
      D + "m2m/remoteprocess.py"],
     [("counter with lock", D + "limiter.py"), ("decrement in finally", D + "portforward.py Connection.run and the other "
      "services' run methods")],
     SCHED, "Limits set to 2 (services) and 1 (terminals); the number of running services is measured in the virtual "
     "machine, not read from the counter.")

prop("C10", "Port forwarding carries both byte streams faithfully",
     "On a forwarded connection the local server receives exactly the bytes the server routed to the channel, in order "
     "and without gaps, including those that arrive before the local connection is up and whatever the pace of either "
     "side; and the channel carries exactly the bytes the local server sent, up to its end of stream. If some data "
     "can not be delivered nothing that follows it is, and the connection ends.",
     ["schedules", "fault_sequences"], "all schedules of network, connection and local server up to a preemption bound; "
     "all chunkings, stalls, resets and close orders of small streams",
     "Tests stub the socket and never race connect with incoming data.",
     [D + "portforward.py"],
     [("buffer until connected, flush under lock", D + "portforward.py _flush_buffer"),
      ("read loop", D + "portforward.py _run")],
     SCHED, "Real connection threads over virtual sockets whose semantics are compared with the kernel's.")

prop("C11", "A forwarded connection ends when either side ends, alone",
     "When the local server closes, resets or refuses, the channel is closed, after what it sent has been delivered; when "
     "the channel closes, the local server sees the end of the stream after everything routed before, even if the "
     "channel closes while connecting. Ending one connection never disturbs another, and no thread outlives its "
     "connection by more than the poll interval.",
     ["schedules", "histories"], "all schedules of closes, resets and connects of up to two connections up to a preemption "
     "bound; all event histories to a depth",
     "Tests never run the connection loop to its end.",
     [D + "portforward.py"],
     [("half close", D + "portforward.py on_channel_close"), ("loop end", D + "portforward.py _run")],
     SCHED, "As C10; termination is checked in virtual time.")

prop("C12", "Port forwarding connects only where it was told to, on this machine",
     "A forward to a named service connects to that service's own port (web 80, ext 81, extalt 8000, alt 8080) and a "
     "redirect to the port it names, always on the loopback address and once per request; unknown services and "
     "malformed requests connect nowhere. The traffic of each request goes to the connection made for it, also when "
     "several are open to the same or different ports.",
     ["histories", "inputs"], "all sequences of up to three requests over all services, ports and malformed variants",
     "Tests open one service with a stub.",
     [D + "portforward.py", D + "m2mmanager.py"],
     [("service table", D + "portforward.py PortForwardManager.init/open"), ("redirect", D + "portforward.py redirect_port")],
     HIST, "Every connect call is recorded by the virtual network.")

prop("C13", "A requested file arrives whole, and its channel is closed",
     "A file request sends the whole content of the file that was named, in order, and then closes the channel once; "
     "an unreadable or missing file gets one error message and a close instead. If the channel closes or the connection "
     "fails midway the transfer stops, and other channels are unaffected.",
     ["inputs", "schedules", "fault_sequences"], "file sizes around every chunk boundary, every read error point, every "
     "close point; all schedules of two transfers up to a preemption bound",
     "Tests do not cover this service at all beyond import.",
     [D + "m2m/fileservice.py", D + "m2mmanager.py"],
     [("chunked copy", D + "m2m/fileservice.py _run_service"), ("error report", D + "m2m/fileservice.py send_error")],
     SCHED, "Chunk size reduced to 4 bytes through the constants module so that boundaries are reachable.")

prop("C14", "A command's output, return code and end are reported, exactly once",
     "A requested command is run once through the shell; everything it writes to standard output is sent in order, then "
     "one completion message with its return code, then the channel is closed, also if it dies, closes its output early, "
     "writes only to standard error or can not be started (an error message and a close). If the channel closes first "
     "the command is killed, and in no case is the service left running after the command ended.",
     ["schedules", "fault_sequences"], "all orders of output, error output, hang-up, exit and channel close for small "
     "outputs; all schedules up to a preemption bound",
     "Tests run one or two real commands.",
     [D + "m2m/commandservice.py", D + "m2mmanager.py"],
     [("poll loop", D + "m2m/commandservice.py _run_service")],
     SCHED, "Virtual processes and pipes; the poll behaviour is compared with the kernel's.")

prop("C15", "A terminal's process ends with its channel, is reaped, and only it is signalled",
     "When a terminal's channel closes or the connection is lost - also while the process is being launched - its process "
     "is sent a hang-up exactly once, is killed if it has not ended 15 seconds or more later, and is reaped. No signal is "
     "ever sent to a process that was already reaped or to any other process.",
     ["schedules", "histories"], "all schedules of launch, close and process exit up to a preemption bound; all exit "
     "delays around every deadline; several terminals",
     "Tests mock the process; they do not run close against launch.",
     [D + "m2m/remoteprocess.py", D + "m2mmanager.py", D + "m2m/proxy.py"],
     [("hang up once", D + "m2m/remoteprocess.py _hang_up"), ("kill timer", D + "m2m/remoteprocess.py PidWaitThread")],
     SCHED, "Virtual processes record every signal; the agent's own pid and foreign pids are recorded, never signalled.")

prop("C16", "A terminal carries input, output and window size faithfully",
     "Everything typed into a terminal reaches its process in order and without loss, also what arrives before the "
     "process has been launched and when the process reads slowly; everything the process writes is sent on the channel "
     "in order. The process's window always has the last size the server asked for, and malformed or unknown control "
     "messages change nothing.",
     ["schedules", "histories"], "all schedules of input, resize, launch, output and exit up to a preemption bound; all "
     "partial write sizes; all control message variants",
     "Tests do not run a terminal with concurrent input and resize.",
     [D + "m2m/remoteprocess.py", D + "m2m/proxy.py", D + "m2mmanager.py"],
     [("pending input", D + "m2m/remoteprocess.py on_data/_init_fd"), ("write loop", D + "m2m/proxy.py write_master"),
      ("resize", D + "m2m/remoteprocess.py on_control")],
     SCHED, "Virtual pty with partial writes; window size ioctls are recorded.")

prop("C17", "Each instruction starts exactly what it names",
     "Every instruction the server sends causes exactly the action it names, with the arguments it gives, exactly once - "
     "a sync, a terminal, an echo, a forward, a redirect, a file transfer, a command, a scan or the reboot command - and "
     "nothing else. A terminal's process becomes the command that was configured, as the user and the group that were. Unknown or incomplete instructions cause nothing, and the ones that follow are carried out as usual.",
     ["histories", "inputs"], "all sequences of instructions (valid, unknown and incomplete) to a depth",
     "Tests call the instruction handler for two actions.",
     [D + "m2mmanager.py"],
     [("dispatch on action", D + "m2mmanager.py on_instruction")],
     HIST, "The effects are observed in the virtual machine (processes, connections, API calls, messages).")

prop("C18", "Remote file reads serve the snapshot taken at open",
     "Opening a remote file reports the size of a snapshot of that file as it is at that moment, and every read - any "
     "offset and size, any order, several files open at once - returns exactly those bytes of the snapshot, whatever "
     "happens to the file meanwhile, until it is closed, which removes the snapshot. Opening fails, without leaving a "
     "snapshot, when the copy would leave less than 50 MB of the disk free.",
     ["histories", "inputs"], "all sequences of open/read/close/modify over two ids and files to a depth; all disk fill "
     "levels around the margin",
     "The repository has no test of remote files.",
     [D + "remote_directory.py", D + "disk_tools.py"],
     [("copy at open", D + "remote_directory.py add_upload"), ("read from the copy", D + "remote_directory.py read_upload")],
     HIST, "Real files in a scratch directory, compared with a reference model of snapshots.")

prop("C19", "Remote file requests can not reach outside their directories",
     "Whatever ids, paths and device paths the server sends, the agent serves content only from within the remote "
     "directory (and its own scan result), and creates, changes and removes files only within the remote directory and "
     "its own temporary directories. Anything else is refused with a failure reply and changes nothing.",
     ["inputs", "histories"], "all combinations of path components (backrefs, absolute, empty, NUL, separators) in every "
     "path-carrying field of every remote file request, alone and in sequences",
     "The repository has no test of remote files.",
     [D + "remote_directory.py"],
     [("path checks", D + "remote_directory.py validate_path/validate_id")],
     ENUM, "Runs unprivileged in a scratch tree with decoy files; the tree outside is compared before and after each "
     "request and replies are searched for decoy content.")

prop("C20", "A completed download is stored whole, beside and never over existing files",
     "The chunks of a download, each written at the offset it names, produce on completion exactly one new file in the "
     "remote directory with exactly the assembled content, at the path asked for or, if the name is taken, at the first "
     "free numbered variant beside it, and in the remote directory itself if the folder does not exist. No existing "
     "file is ever overwritten or changed, and concurrent downloads do not mix. A download that fails adds nothing.",
     ["histories", "inputs"], "all chunkings and chunk orders of small files, over one or two concurrent downloads, with all "
     "patterns of existing names",
     "The repository has no test of downloads.",
     [D + "remote_directory.py"],
     [("assemble in temp", D + "remote_directory.py on_write_remote_file"),
      ("free name search and rename", D + "remote_directory.py copy_download")],
     HIST, "Real files in scratch, compared with a reference model of the directory after every request.")

prop("C21", "Every remote file request gets exactly one matching reply",
     "Each open, read, write and scan request is answered by exactly one reply of its kind carrying the request's own id, "
     "offset and size, whether it succeeds or fails and whatever error the file system reports, with failure marked and "
     "a reason given. A close is never answered, and a failing request does not affect the following ones.",
     ["fault_sequences", "histories"], "a failure injected at every file system call of every kind of request, and all "
     "request sequences to a depth",
     "The repository has no test of remote files, and none injects I/O errors.",
     [D + "remote_directory.py", D + "m2m/wsclient.py", D + "directory_scanner.py"],
     [("replies in handlers", D + "remote_directory.py on_*"), ("scan callbacks", D + "m2m/wsclient.py on_scan_remote_directory")],
     HIST, "Errors are injected at each file-system call the real code makes, in turn.")

prop("C22", "A scan lists exactly the visible tree, and ends",
     "A directory scan lists every non-hidden file and directory on ten levels of directories, the root being the first: each "
     "directory once (a directory that links make reachable by several paths at one of them) with all its own files and "
     "their sizes, and nothing else; hidden entries and what is below them are left out. Links that lead back up, unreadable "
     "or vanishing entries never make it fail or run for ever, and a file whose size can not be told is listed all the same.",
     ["inputs", "fault_sequences"], "all small directory trees (shapes, names, links, hidden entries), trees around the depth "
     "limit, equal inode numbers on different devices, an error at every file system call",
     "The repository has no test of scanning.",
     [D + "scan_directory.py"],
     [("explicit stack with visited set", D + "scan_directory.py scan_directory")],
     ENUM, "Real trees in scratch compared with a reference walk.")

prop("C23", "A published scan is always a complete one",
     "Whoever reads the published scan at any moment - while it is being rewritten, after a crash of the agent or a failed write, "
     "during concurrent scans - sees either the previous complete scan or the new complete one, or none if none was "
     "finished yet. Each scan request by the server is answered once, with success only after a scan that started after "
     "the request has been published.",
     ["crash_points", "schedules"], "a crash and a read after every file system operation; all schedules of concurrent scan "
     "requests up to a preemption bound; an error at every operation",
     "The repository has no test of scanning.",
     [D + "directory_scanner.py", D + "m2m/wsclient.py"],
     [("write aside and rename", D + "directory_scanner.py write_scan"), ("scan lock", D + "directory_scanner.py _scan")],
     SCHED, "All crash points of the write protocol and all schedules within the bound, on real files in scratch.")

prop("C24", "Device details are sent until they are accepted, and then no more",
     "The device's details are sent, authenticated, on start and on every sync until the server has accepted every one of "
     "them, and are not sent again after that, however polls and server-requested syncs overlap. Any failure to reach the "
     "server, to authenticate or to set one of them counts as not accepted.",
     ["schedules", "fault_sequences", "histories"], "all sequences of API outcomes to a depth; all schedules of poll and sync "
     "up to a preemption bound",
     "Tests check one successful sync.",
     [D + "client.py", D + "device_meta.py"],
     [("sync lock and flag", D + "client.py sync/_sync/_check_meta")],
     SCHED, "The virtual web API decides every answer.")

prop("C25", "Machine tags reach the server whenever they change",
     "At every poll the tags printed by the tag script - separated by commas or white space, empty ones dropped, cut to 25 "
     "characters, in order - are registered if they differ from the last ones the server accepted, and only then. A "
     "failing script changes nothing; a missing one, or one that can not be started, means no tags; a failed registration is tried again at the next poll.",
     ["inputs", "histories", "fault_sequences"], "all short outputs over the separator alphabet; all sequences of script and "
     "API outcomes to a depth",
     "Tests check two outputs.",
     [D + "tags.py", D + "client.py"],
     [("split and cut", D + "tags.py get_tag_list"), ("cached list", D + "client.py tag_poll")],
     HIST, "Compared with an independent parser and a reference of the accepted list.")

prop("C26", "API calls are authenticated and matched to their own answers",
     "Every batch sent to the web API is a valid JSON-RPC 2.0 batch that starts with the device's own credentials, and each "
     "call's result or error is taken from the reply with its own id, in whatever order replies come. A missing reply, an "
     "error, or an answer that is not understood is a failure of that call, never a success.",
     ["inputs", "fault_sequences"], "all permutations, omissions, errors and malformations of the replies to every kind of "
     "batch",
     "Tests use in-order replies.",
     [D + "jsonrpc.py", D + "client.py"],
     [("results by id", D + "jsonrpc.py Batch.send/get_result")],
     ENUM, "Compared with a reference interpretation of JSON-RPC replies.")

prop("C27", "The agent keeps polling whatever fails, and stops when asked",
     "The agent polls immediately and then every minute, and no failure of the disk, the tag script or the web API "
     "ends the polling or skips the remaining steps of a poll. Disk use is reported on start and then at most once an hour, "
     "however long a poll took, with the real numbers, and a request to exit ends the run promptly and cleanly: nothing is polled after it.",
     ["fault_sequences", "histories", "schedules"], "all sequences of failures of every poll step to a depth; all exit times",
     "Tests run one poll with everything working.",
     [D + "client.py", D + "disk_tools.py"],
     [("guards around each step", D + "client.py poll/disk_poll/tag_poll/sync"), ("exit event", D + "client.py run_forever")],
     HIST, "Virtual time; every poll step's failure is a choice.")

prop("C28", "A jump of the clock restarts the agent, nothing else does",
     "If the system clock jumps forward by more than three minutes the agent kills itself within seconds so that it is "
     "restarted; ordinary running, smaller adjustments and adjustments backwards never do. After the agent has been "
     "told to exit the watch ends with it.",
     ["histories"], "all sequences of clock adjustments (sizes around the threshold, both directions) to a depth, at all phases",
     "Tests do not change the clock.",
     [D + "clockcheck.py", D + "client.py"],
     [("elapsed wall time", D + "clockcheck.py run")],
     HIST, "The clock is virtual and so is the kill, which is recorded.")

prop("C29", "Configuration means the same wherever it comes from",
     "Server addresses, serial, authentication token, remote directory and limits are taken from the command line if given, "
     "else from the environment or the files of the installation, else from the documented defaults, each independently of "
     "the others; feature flags are announced unless the address has its own query. An invalid option or environment value "
     "is reported or ignored, never acted upon. The log goes to the file asked for, which never takes more than about 30 MB, or "
     "else to the error output, with what is of the level asked for or above.",
     ["configurations"], "all combinations of sources for every setting, valid and invalid values",
     "Tests cover two combinations.",
     [D + "app.py", D + "client.py", D + "constants.py", D + "subcommands/run.py"],
     [("defaults", D + "client.py __init__/_init"), ("environment", D + "constants.py"), ("arguments", D + "app.py")],
     ENUM, "The real entry point is run for every combination; the resulting client is observed.")

prop("C30", "Command responses are delivered exactly once",
     "Each registered response callback is called exactly once: with the response to its own command, or with nothing if the "
     "connection is lost first, whichever comes first. One callback's failure does not keep the others from being "
     "called, and a response nobody waits for is ignored.",
     ["histories", "schedules"], "all sequences of registrations, responses, duplicates and disconnects to a depth; all "
     "schedules up to a preemption bound",
     "Tests do not cover callbacks.",
     [D + "m2m/wsclient.py"],
     [("callback table", D + "m2m/wsclient.py add_callback/callback/clear_callbacks")],
     SCHED, "Compared with a reference table of outstanding callbacks.")

prop("C31", "Device details describe this device and never stop the agent",
     "The reported details are those of the machine: agent version, processor revision, model, operating system, system name, "
     "and the address of every network interface at the moment of sending. Whatever the system files contain, or whichever of them is missing or unreadable, the "
     "remaining details are still gathered and the agent runs on.",
     ["inputs", "fault_sequences"], "all contents of the system files up to a few lines over a small alphabet, each source "
     "missing or failing, up to several interfaces",
     "Tests check a fixed cpuinfo.",
     [D + "device_meta.py", D + "rpi.py", D + "iptool.py"],
     [("guards", D + "device_meta.py"), ("parsing", D + "rpi.py"), ("interface table", D + "iptool.py")],
     ENUM, "System files and the interface ioctl are virtual.")

prop("C32", "Nothing of finished work is left behind",
     "When a terminal, forwarded connection, file transfer, command, scan, remote file or request is over - closed by the "
     "server, ended by itself, not even started, broken by an error or cut off by a lost connection - its threads end, its "
     "descriptors are closed, its temporary files are removed and the agent forgets it. What the agent holds does not grow with the "
     "work it has done, however long it runs.",
     ["histories", "schedules", "fault_sequences"], "every pair of 48 kinds of work and ends, repeated; every file system call "
     "failing; the end at every moment under all schedules up to a preemption bound",
     "Tests run one call of a service and end; they never look at what remains, or at what remains after doing it again.",
     [D + "m2m/wsclient.py", D + "m2mmanager.py", D + "portforward.py", D + "m2m/remoteprocess.py", D + "m2m/proxy.py",
      D + "m2m/commandservice.py", D + "m2m/fileservice.py", D + "remote_directory.py", D + "directory_scanner.py"],
     [("channel table", D + "m2m/wsclient.py on_notify_close/hard_close_channels"), ("terminal list", D + "m2mmanager.py _prune_closed"),
      ("closing of the pty", D + "m2m/proxy.py _close_fd"), ("snapshots and downloads", D + "remote_directory.py")],
     HIST, "After each round everything reachable from the agent (objects and bytes), its live threads, its open virtual descriptors, "
     "processes and temporary files are counted; what still grows after many more rounds is a violation.")

prop("C33", "The device's token goes to the web API and nowhere else",
     "The device's authentication token is sent to the web API to authenticate, and appears nowhere else, whatever happens: not in "
     "the log at any level, in error output (but for repeating the command line it was given on), in a message or address of the M2M "
     "server, in any other API parameter, in a file, or in the arguments or environment of a process.",
     ["histories", "fault_sequences", "configurations"], "every failure of every kind of API request, every failing start, all pairs "
     "of kinds of work, with the token from each of its sources and everything that is logged at every level",
     "Tests run without logging and never look for the token.",
     [D + "client.py", D + "jsonrpc.py", D + "app.py", D + "m2mmanager.py"],
     [("the only use", D + "client.py device.check_auth"), ("messages of errors", D + "jsonrpc.py")],
     HIST, "The token, any 7 characters of it, and its usual encodings are searched for in everything that leaves the agent.")

prop("C34", "A connection on which the server no longer answers is given up",
     "If the server stops answering on a connection without closing it (a half-open connection), the agent notices within about "
     "two minutes, closes it together with what was open on it, and connects again; this works every time. A connection on which the "
     "server answers the agent's pings is never given up for being quiet, however long it lasts.",
     ["histories", "fault_sequences"], "silences beginning at every phase of a connection, with nothing, terminals and forwarded "
     "connections open, again and again; hours of answers with every delay and granularity; shorter silences in all combinations",
     "No test waits for minutes, and none has a server that stays connected and says nothing.",
     [D + "m2m/wsclient.py", D + "constants.py"],
     [("the limit", D + "constants.py MAX_TIME_SINCE_LAST_PACKET"), ("the loop of the connection", D + "m2m/wsclient.py run")],
     HIST, "Uses the real lomond websocket over a virtual socket in virtual time; the far end answers as it is told.")

prop("C35", "A web API that never answers does not stop the agent",
     "If the web API accepts a request and never answers, answers only in part, or can not be connected to without an error, the "
     "request is given up in the end: the other steps of the polling go on, messages of the session are handled, the requests are "
     "made again, and a request to exit still ends the agent.",
     ["fault_sequences", "histories"], "every step and kind of missing answer, in all sequences to a depth, with what the session does "
     "meanwhile; missing answers from the start; all exit times",
     "Tests use a web API that answers or fails at once.",
     [D + "jsonrpc.py", D + "client.py", D + "m2mmanager.py"],
     [("the request", D + "jsonrpc.py _send"), ("the polling", D + "client.py poll"), ("the identity", D + "m2mmanager.py set_identity")],
     HIST, "The request and its timeout are virtual; without a timeout it waits for ever.")

prop("C36", "However a connection fails, the agent connects again",
     "However an attempt to connect to the M2M server fails (no name, no connection, a refused or garbled websocket handshake) and "
     "however a connection ends (closed, reset, any close frame, any violation of the websocket protocol), the agent goes on: it "
     "tries again within a minute, only a few times a minute, and the first attempt that can succeed gives a session "
     "that works and starts fresh. What was open on the connection that was lost ends.",
     ["fault_sequences", "histories"], "all sequences of failing attempts to a depth, of 17 handshakes and 4 ways of not connecting; all "
     "ends of a connection (24) with nothing, idle and sending services open, before attempts that fail; long outages",
     "Tests never lose a connection.",
     [D + "m2m/wsclient.py"],
     [("the loop of the connection", D + "m2m/wsclient.py run"), ("the end of a connection", D + "m2m/wsclient.py on_disconnected")],
     HIST, "Uses the real lomond websocket over a virtual socket in virtual time.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p, sort_keys=False) + "\n")
    checks, na = [], []
    for p, tech, note in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "mc", "props", i.lower() + ".py")):
            checks.append({
                "property": i, "quick_cmd": "./check.sh %s" % i,
                "thorough_cmd": "./check.sh %s --tier thorough" % i,
                "technique": tech, "level": "model_checking", "level_note": note +
                " Trusts the virtual machine model (conformance-tested against the kernel) and the stated bounds.",
            })
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "Checks import the code from /repo's working tree on every run; no hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(PROPS), len(checks)))


if __name__ == "__main__":
    main()
