prop("C01", "Transaction packets survive encoding, copying and comparison unchanged",
     """Every well-formed transaction-layer packet encodes to the byte layout the PCI Express specification prescribes, decodes back to a packet equal in every field, and reports header, payload and
     flow-control sizes that agree with those bytes; copies equal their original and share no state with it, and packets that differ in any field are unequal.
     The packet validator accepts exactly the packets that satisfy the specification's field rules (length and payload agreement, 4 KB boundary, byte-enable rules), and the same round trip holds for requester/completer IDs.""",
     ["inputs"], "all packet types, field values, byte-enable patterns, payload lengths 0..1024 DW, addresses of both widths",
     """Unit tests build a handful of packets through one flow; nothing decodes headers independently, most fields (hints, attributes, poisoned, digest, prefix bits) are always zero and equality or copies are never probed field by field.""",
     [P + "tlp.py", P + "utils.py"],
     [("header pack/unpack", P + "tlp.py: Tlp.pack_header/unpack_header/pack/unpack"), ("copy constructor and equality", P + "tlp.py: Tlp.__init__, __eq__"), ("validator", P + "tlp.py: Tlp.check"), ("byte-enable helpers", P + "tlp.py: set_addr_be, get_first_be_offset, get_be_byte_count, get_lower_address"), ("IDs", P + "utils.py: PcieId")],
     ["returned bytes and decoded packets"], note="Oracle: an independent encoder/decoder written from the specification (vlib/ref_tlp.py).")

prop("C02", "Link packets encode exactly and corruption is always detected",
     """Every data-link packet (ACK, NAK, flow-control initialisation and update for every virtual channel) encodes to the specified six-byte layout with the specified 16-bit CRC and decodes to an equal packet.
     A six-byte string that differs from a valid encoding by any error the CRC guarantees to detect is rejected.""",
     ["inputs"], "all types, virtual channels, sequence numbers and credit values; all 1-3 bit and burst errors up to 16 bits of sampled packets",
     """Tests never corrupt a link packet and never decode with anything but the encoder's own inverse.""",
     [P + "dllp.py"], [("pack/unpack and CRC", P + "dllp.py: Dllp.pack, unpack, pack_crc, unpack_crc, crc16")], ["bytes"])

prop("C03", "The link delivers every packet exactly once, in order, unchanged",
     """Every transaction packet handed to a connected link port is delivered to the peer exactly once, unchanged and in the order sent; sequence numbers run consecutively modulo 4096 and survive wrap-around.
     The receiver acknowledges only packets it accepted, discards duplicates and out-of-sequence packets, and the sender keeps a packet until it is acknowledged and releases it then; never more packets are unacknowledged than the numbers can tell apart (2047).""",
     ["schedules", "histories", "fault_sequences"], "all interleavings of both directions, buffer sizes, link rates, delays, duplicate, reordered and lost acknowledgements, and sequence wrap",
     """Existing tests never reach sequence wrap-around, never delay, lose or repeat anything on a link and compare only the memory image at the end.""",
     [P + "port.py"], [("sequence numbering and retry buffer", P + "port.py: Port._run_transmit, handle_rx/ext_recv"), ("acknowledgement", P + "port.py: ack timer, next_recv_seq, ackd_seq")],
     ["both ends of every link (instance-level taps)"], note="Replay after NAK is not implemented in the library; the harness retransmits itself where it drops packets.")

prop("C04", "Flow-control credits are respected, conserved and returned",
     """On every link and for every traffic class, a sender never transmits a packet the receiver has not advertised room for, in either header or payload units, including when advertised counts wrap or are infinite.
     Every credit consumed is returned exactly once when the packet leaves the receive buffer, so that a quiet link always shows the full initial allocation, and each side's own account of credits agrees with what was exchanged.""",
     ["schedules", "configurations", "histories"], "all receive buffer sizes from one packet to infinite, all payload sizes, traffic mixes, counter wrap",
     """Tests run with large default credits so the limit is never reached; a leak or off-by-one shows only after thousands of packets or with buffers of one packet.""",
     [P + "port.py"], [("credit gate and limit comparison", P + "port.py: FcStateData/FcChannelState tx_has_credit, tx_tlp_fc_gate"), ("release and update", P + "port.py: release_fc, rx_credits_allocated, update timers")],
     ["packets and update DLLPs on the link"])

prop("C05", "Requests are legal and cover exactly the bytes asked for",
     """For every read or write issued by the root complex or a function, through any helper, the request packets on the link together cover exactly the requested bytes, in order, with the data at the right byte lanes, and address exactly the requested space (memory, I/O, configuration).
     Each packet is valid by itself: right header format for its address, correct byte enables, no 4 KB boundary crossed, no more than the permitted maximum payload or read-request size; and requests by a function without bus-master permission are refused.""",
     ["inputs", "configurations"], "all addresses, lengths (including zero) and data, all payload/read-size limits, all helper variants",
     """Tests use aligned power-of-two cases and read back through the same code; splitting, byte enables and limits interact at arbitrary alignments.""",
     [P + "region.py", P + "rc.py", P + "function.py", P + "tlp.py"], [("splitting", P + "region.py: MemoryTlpRegion, IoTlpRegion; rc.py mem/io/config helpers"), ("byte enables", P + "tlp.py: set_addr_be, set_addr_be_data")], ["requests on the link, judged by a harness completer"])

prop("C06", "Completions answer exactly the bytes requested within all limits",
     """For every accepted read, the completions carry exactly the requested bytes in address order, with the correct remaining byte count, lower address, requester, completer, tag, traffic class and attributes; they never exceed the maximum payload and break only at permitted read-completion boundaries.
     Writes and configuration or I/O requests are answered by one completion of the right form, and completions for zero-length reads have the prescribed form.""",
     ["inputs", "configurations"], "all request shapes and byte-enable patterns, all payload limits, both completion boundaries and split policies",
     """The library's own requester tolerates many wrong completions; no test inspects completion headers over arbitrary alignments and limits.""",
     [P + "rc.py", P + "endpoint.py", P + "function.py", P + "tlp.py"], [("completion splitting", P + "rc.py: handle_mem_read_tlp; endpoint.py: MemoryEndpoint handlers"), ("byte count and lower address", P + "tlp.py: create_completion..., get_lower_address, get_be_byte_count")], ["completions on the link"])

prop("C07", "Every non-posted request gets exactly one outcome",
     """Every non-posted request that reaches a component is answered by exactly one complete set of completions, and posted requests by none; requests nobody claims (unmatched address, absent device or function) are answered as unsupported, and a root-complex target whose access fails answers with completer abort.
     Every read or write operation of the root complex or of a function ends: with the data or status of its completions, with an error when a completion reports one, or at its time-out when none comes.""",
     ["inputs", "histories", "fault_sequences"], "all request types, targets present and absent, failing targets, late, missing and erroneous completions",
     """Tests only exercise answered requests; lost, repeated or misattributed completions appear only with absent targets, faults or time-outs in flight.""",
     [P + "rc.py", P + "device.py", P + "switch.py", P + "bridge.py", P + "function.py"], [("unsupported-request answers", P + "device.py, switch.py, bridge.py, rc.py: create_ur_completion_for_tlp"), ("operation completion", P + "function.py: perform_nonposted_operation, recv_cpl")], ["requests and completions on the link, operation results"])

prop("C08", "Tags are unique while outstanding, limited, and always released",
     """No two outstanding non-posted requests of one requester carry the same tag, and no tag exceeds the limit set by the extended-tag setting; when all tags are in use further requests wait rather than fail.
     Every tag becomes free again once its request is completed, has failed or timed out, and a completion for a request that is no longer outstanding is discarded without affecting any other request or the link's credits.""",
     ["schedules", "histories", "fault_sequences"], "bursts beyond the tag limit, any completion order, drops, errors, time-outs and late completions",
     """No test exhausts the tags, times requests out or delivers stale completions.""",
     [P + "function.py", P + "rc.py"], [("tag allocation", P + "function.py: alloc_tag/release_tag; rc.py"), ("completion queues", P + "function.py: rx_cpl_queues, recv_cpl")], ["requests on the link"])

prop("C09", "Every packet travels exactly the path to its one target",
     """In any tree of root ports, switches and endpoints, every memory or I/O request reaches exactly the component that claims its address, every configuration request exactly the function with its ID (converted to the local form only on the final link), and every completion exactly its requester.
     Packets take the direct path in the tree, including between peers below a common switch or root complex, appear on no other link, and are forwarded unchanged.""",
     ["configurations", "inputs", "schedules"], "all tree shapes, address assignments, function counts and traffic mixes",
     """Tests use one fixed topology of each kind; address and bus windows interact with placement.""",
     [P + "switch.py", P + "bridge.py", P + "rc.py", P + "device.py", P + "function.py"], [("window match", P + "bridge.py: match_tlp_secondary, route"), ("BAR match", P + "function.py: match_bar/match_tlp"), ("switch routing", P + "switch.py: _run_routing")], ["all links"])

prop("C10", "Enumeration finds everything and assigns disjoint, aligned, reachable resources",
     """Enumerating any hierarchy finds exactly the functions present, gives them distinct IDs with nested bus ranges, and gives every implemented base address register and expansion ROM a naturally aligned range of the right type and size that overlaps no other and lies inside the windows of all bridges above it.
     Bridges' windows are disjoint between siblings, functions come out of it accessible once enabled, with payload and read-request sizes within what the path supports, devices that ask for a retry are found once ready, and enumerating again gives the same guarantees.""",
     ["configurations", "histories"], "all tree shapes, multi-function devices, BAR types and sizes 16 B to 1 TB, devices not ready at first, repeated enumeration",
     """Tests enumerate a few fixed hierarchies with small BARs; alignment and window packing depend on the mix.""",
     [P + "pci.py", P + "rc.py", P + "bridge.py"], [("bus scan", P + "pci.py: PciBus.scan..."), ("resource assignment", P + "pci.py: PciBus/PciDevice size and assign"), ("MPS/MRRS", P + "pci.py: configure_device")], ["registers and accesses through the link"])

prop("C11", "Each signalled interrupt reaches its own vector's handlers exactly once",
     """After interrupt vectors have been allocated for a function (MSI or MSI-X), every interrupt the function signals for a vector runs each handler attached to that vector exactly once and no other, and not before data written ahead of it is visible.
     Vectors granted are distinct across all functions, within the range requested, unaffected by other functions' allocation or release, and an impossible request is refused.""",
     ["configurations", "histories", "schedules"], "all capability shapes, vector counts and table positions, allocation/release sequences, concurrent signalling",
     """Tests allocate once and signal each vector once in sequence.""",
     [P + "msi.py", P + "pci.py", P + "rc.py", P + "caps/msi.py", P + "function.py"], [("message region", P + "msi.py: MsiRegion"), ("vector allocation", P + "pci.py: alloc_irq_vectors, free_irq_vectors"), ("signalling", P + "function.py/caps: issue_msi_interrupt, issue_msix_interrupt")], ["handlers"])

prop("C12", "Configuration registers have the specified layout and access rules",
     """Each register of each function's configuration space (both header types, power management, PCI Express and its secondary capability, MSI, MSI-X, error reporting) presents every field at the position the specifications give, unimplemented registers read zero, and writes change exactly the writable bits in the enabled bytes: read-only bits never change and status bits clear only where one is written.
     The same holds through the link at every byte offset and length, for endpoints, switch ports and root ports, while other functions are accessed concurrently; a read of an absent function returns all ones.""",
     ["inputs", "histories"], "all registers, byte enables, data patterns, capability shapes and access sequences",
     """Tests touch only the few registers enumeration needs, with whole-word accesses.""",
     [P + "function.py", P + "endpoint.py", P + "bridge.py", P + "caps/pcie.py", P + "caps/pm.py", P + "caps/msi.py", P + "caps/aer.py", P + "utils.py"], [("register read/write", "read_config_register/write_config_register and _read_register/_write_register of each capability"), ("byte masking", P + "utils.py: byte_mask_update")], ["register values and the attributes behind them"])

prop("C13", "Capability lists always lead to exactly the registered capabilities",
     """After any successful sequence of registering, moving and removing standard and extended capabilities, the linked lists starting at the capabilities pointer and at the first extended capability visit exactly the registered capabilities once, each inside its area and overlapping no other; an explicit position is honoured and capabilities not in the way stay where they are.
     Every register of both areas belongs to the one capability placed there and reads zero elsewhere, and enumeration finds, and by-capability accesses reach, exactly these capabilities.""",
     ["histories", "configurations"], "all sequences of changes, capability lengths, automatic, free, occupied and boundary positions",
     """Tests register a fixed set once; overlap and pointer faults need particular lengths, orders and removals.""",
     [P + "caps/common.py", P + "function.py", P + "pci.py", P + "rc.py"], [("placement and linking", P + "caps/common.py: PciCapList.register/_build_linked_list"), ("discovery", P + "pci.py: walk_capabilities")], ["registers", "the enumerated device's view"])

prop("C14", "Concurrent accesses anywhere in the hierarchy behave as plain memory",
     """Whatever a requester has written last to a byte of host memory or of any function's memory or I/O range, and nothing else, is what its later reads return, through every access helper and window, while any number of other requesters use other bytes.
     This holds in every topology, with every buffer size, payload limit and link disturbance, and at the end every byte of every target holds exactly the last value written to it.""",
     ["schedules", "histories", "configurations"], "concurrent agents, all alignments and lengths, helpers, topologies, credit shapes and link delays",
     """Tests run one access at a time at default credits.""",
     [P + "rc.py", P + "region.py", P + "function.py", P + "endpoint.py", P + "switch.py", P + "port.py"], [("memory operations", P + "region.py, rc.py, endpoint.py: read/write handlers"), ("reassembly", P + "region.py: MemoryTlpRegion.read")], ["data returned and backing stores"])

prop("C15", "Traffic always makes progress, at the rate of the link",
     """As long as receivers drain, every packet is eventually delivered and every operation finishes, whichever traffic classes are blocked elsewhere: blocked reads never stop writes or completions, in links, switches, root complex and devices.
     Packets occupy the link for the time its speed and width imply and never overlap, and acknowledgements and credit updates are sent within bounded time.""",
     ["schedules", "configurations"], "smallest legal buffers, stalled classes, read storms among peers, all link speeds and widths",
     """Deadlocks need full buffers in several places at once; tests keep one or a few operations outstanding.""",
     [P + "port.py", P + "switch.py", P + "device.py", P + "rc.py"], [("transmit scheduling", P + "port.py: _run_transmit, SimPort"), ("switch arbitration", P + "switch.py"), ("device receive path", P + "device.py")], ["simulated time on links"], note="Progress is decided by bounds in simulated time, not by absence of a deadlock proof.")

prop("C16", "Nothing overtakes a posted write on its way",
     """Packets from one source to one destination keep the ordering PCI Express requires: no write, read or completion passes an earlier posted write through a link, switch or root complex, and completions of one request stay in order.
     Hence a consumer that sees a flag, gets the answer to a read sent after the writes, or reads a register its owner updated after writing, always finds the data written before.""",
     ["schedules", "configurations", "histories"], "several producers and consumers (host, functions, peers), small buffers, delays and unrelated traffic",
     """Reordering appears only when queues back up behind exhausted credits; tests never fill them.""",
     [P + "switch.py", P + "port.py", P + "rc.py", P + "device.py", P + "bridge.py"], [("per-egress queues", P + "switch.py: _run_arbitration"), ("transmit queue", P + "port.py: send, tx_queue"), ("receive handlers", P + "rc.py, device.py")], ["links and memory"])

X = "cocotbext/pcie/xilinx/us/"
S = "cocotbext/pcie/intel/s10/"
PT = "cocotbext/pcie/intel/ptile/"

prop("C17", "Streaming interface models transfer every packet exactly, within protocol",
     """Each source and sink of a hard-IP streaming interface (UltraScale RQ/RC/CQ/CC; Stratix 10 and P-Tile receive and transmit) carries any sequence of packets in order, once, with header, data, byte enables, parity and side-band fields intact, at every bus width, segmentation, straddling option and ready latency and under any pausing.
     Sources obey the handshake (stable while stalled, no beats beyond the ready latency, legal start and end lanes); queue limits, occupancy and wait()/idle() tell the truth.""",
     ["inputs", "schedules", "configurations"], "every interface, width, segment count and legal ready latency; random packet lengths, side-band values, pausing, limits",
     """Start lane, end lane, length, side-band value and stall position combine; the existing loopback tests use a few lengths and share the code on both ends, so symmetric errors cancel.""",
     [X + "interface.py", S + "interface.py", PT + "interface.py"],
     [("UltraScale streams", X + "interface.py: RqSource/RqSink, RcSource/RcSink, CqSource/CqSink, CcSource/CcSink"), ("Stratix 10 streams", S + "interface.py: S10PcieSource, S10PcieSink"), ("P-Tile streams", PT + "interface.py: PTilePcieSource, PTilePcieSink")], ["the models' buses in an RTL simulation"])

prop("C18", "Intel hard IP models pass packets unchanged between link and user interface",
     """For the Stratix 10 and P-Tile device models, every packet the user puts on the transmit interface appears on the link exactly once, in order, unchanged in header and payload, and every packet from the link that the user must handle appears on the receive interface exactly once, in order, unchanged, with the function and base address register it belongs to.
     Requests that match no enabled range, and completions for functions that do not exist, are kept from the user, and configuration requests and unsupported requests are answered by the model; credits of everything taken are returned, so traffic in both directions never stops.""",
     ["inputs", "schedules", "configurations"], "both models, every width, 1-4 functions, all packet types and alignments, user pausing, payload limits",
     """The existing tests send a few requests of one function and compare only memory contents at the end.""",
     [S + "s10_model.py", S + "interface.py", PT + "ptile_model.py", PT + "interface.py"],
     [("receive path", S + "s10_model.py: upstream_recv, _run_rx_logic; " + PT + "ptile_model.py"), ("transmit path", S + "s10_model.py: _run_tx_logic; " + PT + "ptile_model.py"), ("frames", S + "interface.py: S10PcieFrame; " + PT + "interface.py: PTilePcieFrame")],
     ["packets on the link and frames on the models' buses"], note="Messages, locked requests towards the device and atomic operations towards the host are not generated: the library does not route them.")

prop("C19", "UltraScale completer interfaces pass each host request and completion exactly",
     """For the UltraScale and UltraScale+ models, every memory or I/O request of the host that hits an enabled base address register of a function appears on the CQ interface exactly once, in order within its class, with the descriptor the product guide prescribes: address, length, type, requester, tag, target function, BAR number and aperture, traffic class, attributes, byte enables and payload.
     Every packet on the CC interface becomes one completion with exactly these fields on the link (with the completer ID of the function unless it is given), discontinued ones none. Non-posted requests are presented only within the credits the user grants by cq_np_req and the count output tells the truth; posted requests are never held back by that. Requests nobody claims and configuration requests are answered by the model.""",
     ["inputs", "schedules", "configurations"], "both families, every width, straddling, 1-4 functions, all request types, BAR layouts, pausing and non-posted flow control modes",
     """Existing tests use function 0, generous credits and a test bench completer that reads the same fields back.""",
     [X + "us_model.py", X + "usp_model.py", X + "tlp.py", X + "interface.py"],
     [("request path", X + "us_model.py, usp_model.py: upstream_recv, _run_cq_logic, _run_cq_np_req_logic"), ("completion path", X + "us_model.py, usp_model.py: _run_cc_logic")], ["packets on the link and beats of CQ and CC"])

prop("C20", "UltraScale requester interfaces pass each request and completion exactly",
     """For the UltraScale and UltraScale+ models, every packet on the RQ interface becomes exactly one request on the link with the fields of its descriptor (with the requester ID of the function unless it is given), in order, and its sequence number is reported once; discontinued requests and requests of functions without bus mastering are not sent.
     With internal tags, every outstanding request has its own tag below the limit, reported in order of the requests; a request waits while none is free and nothing overtakes it, and the available-tag output counts the free ones.
     Every completion for an outstanding request reaches the RC interface once, in order for its tag, with the descriptor the product guide prescribes: address bits, byte count, length, status, tag, byte enables, the error code (bad status, poisoned, length, address, mismatched or unknown tag) and, exactly on the last one, the request-completed flag.""",
     ["inputs", "schedules", "histories", "fault_sequences"], "both families, every width and segmentation, tag modes, completions split, reordered, failing, poisoned, repeated or foreign, tag exhaustion, credit exhaustion",
     """Existing tests never exhaust tags or credits, never send two functions' traffic at once and answer only with correct completions.""",
     [X + "us_model.py", X + "usp_model.py", X + "tlp.py", X + "interface.py"],
     [("requests", X + "us_model.py, usp_model.py: _run_rq_logic, tag allocation, sequence numbers"), ("completions", X + "us_model.py, usp_model.py: upstream_recv, _run_rc_logic")], ["packets on the link, beats of RQ and RC, sequence number and tag outputs"])

prop("C21", "Hard IP side-band signals agree with configuration space, link and interrupts",
     """The configuration and status outputs of the hard IP models (link state, payload and read-request limits, completion boundary, per-function enables, MSI and MSI-X enables and mask, the multiplexed configuration output of the Intel models) always follow the registers of the functions they describe, as the host reads them.
     The management interface reads and writes the same registers of the addressed function and no other. The flow-control and credit outputs equal the credits exchanged on the link for each class and selection.
     Every interrupt asked for on the side band causes exactly one message with the function's address, data, traffic class and attributes and is acknowledged once; pending bits follow the user's; while configuration access is disabled by the user, configuration requests get a retry status and change nothing. Parameters such as vector counts appear in the functions' capabilities.""",
     ["configurations", "histories", "inputs"], "all four models, 1-4 functions, register contents, capability combinations, traffic histories",
     """Existing tests tie most of these signals off or never read them.""",
     [X + "us_model.py", X + "usp_model.py", S + "s10_model.py", PT + "ptile_model.py"],
     [("management interface", X + "us_model.py, usp_model.py: _run_cfg_mgmt_logic"), ("status and interrupts", X + "us_model.py, usp_model.py: _run_cfg_status_logic, _run_cfg_fc_logic, _run_cfg_ctrl_logic, _run_cfg_interrupt_logic"),
      ("configuration output and interrupts", S + "s10_model.py: _run_cfg_out_logic, _run_int_logic, _run_tx_fc_logic; " + PT + "ptile_model.py")], ["side-band signals, registers read by the host, packets on the link"])

prop("C22", "Hard IP descriptors and frames encode and decode packets exactly",
     """A packet packed for any UltraScale interface (CQ, CC, RQ, RC) has the descriptor, payload, byte enables and parity the product guide prescribes, and unpacking that frame gives back every field; the Intel frames carry exactly the packet's header and payload words and give the packet back.
     Frames and packets survive copying with all their fields and share nothing with the copy; wrong parity or inconsistent byte enables are noticed when checked; packets an interface cannot carry are refused.""",
     ["inputs"], "every packet type of each interface, all field values, lengths and alignments",
     """Existing tests pack and unpack through the same code with a few shapes of request.""",
     [X + "tlp.py", X + "interface.py", S + "interface.py", PT + "interface.py"],
     [("descriptors", X + "tlp.py: Tlp_us.pack_us_*/unpack_us_*"), ("frames", X + "interface.py: UsPcieFrame; " + S + "interface.py: S10PcieFrame; " + PT + "interface.py: PTilePcieFrame")], ["frames and packets"])

prop("C23", "Completion buffers of hard IP models drop completions only when full",
     """Each hard IP model buffers completions towards the user up to its documented number of headers and data units: a completion is dropped (and, on UltraScale, reported as local error) if and only if it does not fit beside those not yet taken by the user. Space is released exactly when a completion leaves the buffer, and by nothing else; requests are neither dropped nor held to this limit, and what is delivered is complete, unchanged and in order.""",
     ["schedules", "histories", "configurations"], "all four models and port variants, completion sizes, bursts, pauses and requests in between",
     """The buffers are far larger than any existing test fills.""",
     [X + "us_model.py", X + "usp_model.py", S + "s10_model.py", PT + "ptile_model.py"],
     [("space accounting", X + "us_model.py, usp_model.py: rx_cpl_fifo limits in upstream_recv and _run_rc_logic; " + S + "s10_model.py, " + PT + "ptile_model.py: rx completion buffer")], ["packets on the link and frames on the user's interface"],
     note="Between the buffer and the interface a few packets are in transit: up to 8 of them may count either way.")

HOW = dict(
    C01="independent encoder/decoder and field rules (ref_tlp.py) on generated packets; bytes, sizes, decoded fields, equality and aliasing compared; validator compared with the rules on valid packets and single-field mutations; all 65536 IDs.",
    C02="independent layout and bitwise CRC; exhaustive 1- and 2-bit and all burst errors per packet, sampled 3-bit errors.",
    C03="both ends of each link: packets handed to the port against packets accepted and delivered, numbered and compared field by field; acknowledgements against what was accepted; retry buffer watched; raw pairs start near the wrap.",
    C04="credit ledger per link, direction and class from initialisation and update packets and from packet sizes; limits compared modulo the counter width at the instant a packet starts; pools compared with the initial allocation when quiet; the port's own counters compared with the ledger.",
    C05="harness completer behind a raw port records every request of one operation; byte map of the operation rebuilt from addresses and byte enables; legality rules per packet.",
    C06="raw requester sends requests and rebuilds the answer from the completions: byte count, lower address, boundaries, payload limit, IDs and attributes each compared with the request.",
    C07="ledger of requests by (requester, tag) against completions until quiet; operation results against what the faulty completer did.",
    C08="tags on the wire between first appearance and final completion; limits; time-outs and late completions injected; pool full again at the end.",
    C09="each packet followed over all links against the path computed from decoded base address registers and IDs (not from the bridges' windows); conservation at each node.",
    C10="harness walks the resulting configuration registers of each function object and compares: IDs, bus nesting, alignment, overlap, containment, type; then reads and writes each range through the link.",
    C11="counts per vector at handlers against counts signalled; data written before each signal checked in the handler; allocated vectors compared for distinctness, range and table contents.",
    C12="reference layout (ref_cfg.py) with access types; every read compared bit by bit, every write followed through attributes; all 1024 registers swept at the end.",
    C13="list walked as software does after each change; ownership of every register; positions of bystanders.",
    C14="shadow image per target with slices per agent.",
    C15="deadlines in simulated time derived from rate, size and timers; per-link occupancy intervals.",
    C17="the model's source and sink on one set of wires, watched by an independent beat decoder, and each alone against an independent encoder or decoder written from the interface specifications; every field of every packet compared.",
    C16="order monitor in each switch and root complex, stamps in memory.",
    C18="every packet on the link against every frame on the model's buses (independent beat decoders and encoders) in both directions, with side-band fields; end-of-run conservation and host-side outcome of each request.",
    C19="link recorder and host request ledger against CQ frames from an independent beat decoder (descriptor layout from the product guide); CC frames sent against completions on the link; non-posted credits counted.",
    C20="RQ frames sent against requests on the link; sequence number, tag and tag count outputs against a reference; completions sent by a hostile harness completer against RC frames and a reference of outstanding requests.",
    C21="outputs compared with registers read over the link, with a credit ledger of the link, and with packets on the link; management accesses compared with host accesses of every function.",
    C22="descriptor layouts written from the product guides; every field, parity bit and byte enable compared both ways.",
    C23="reference occupancy from arrivals on the link and departures on the interface, judged per completion.",
)
