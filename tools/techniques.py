SIM = "netlist simulated cycle by cycle; "
TECH = {
 "P01": ("property-based testing: generated configurations, frames, tables and timings against a reference encoder",
         "Hypothesis cases on compiled netlists of the elaborated core; the oracle is an independent scan encoder"),
 "P02": ("property-based testing: generated frames and timings against a reference stream (markers, stuffing, scan)",
         "compiled netlists of Beta and Micro, incl. frames of millions of pixels in the thorough tier"),
 "P03": ("property-based testing: wrappers against the reference stream and packing model",
         "every board wrapper with packed words, junk in unused bits, last flags and stalls"),
 "P04": ("stateful property-based testing: histories of frames, register changes and forced ends",
         "model-based: after each frame the stream must be that of the frame alone"),
 "P05": ("property-based testing: handshake invariant monitored every cycle, metamorphic timing independence",
         "all products; two timings of one frame must give the same words, offered words must stay"),
 "P06": ("stateful property-based testing with a twin run as timing oracle",
         "budgets drawn around the duration an unlimited twin run needs"),
 "P07": ("property-based testing: generated prefix codes written over the bus, table model and reference encoder",
         "random codes of every shape, partial writes, read back and encoded frames"),
 "P08": ("stateful model-based testing of bus histories against a register model",
         "all five channels with generated handshakes, frames and resets in between"),
 "P09": ("stateful model-based testing of bus histories against a register model",
         "DMA block and bridge, all channels with generated handshakes"),
 "P10": ("property-based testing of each stage against a reference function", "all bit depths and pixel counts"),
 "P11": ("property-based testing of each stage against a reference function", "all bit depths and pixel counts"),
 "P12": ("property-based testing of the geometry unit against a counting model", "sizes to 65535"),
 "P13": ("property-based testing: bit conservation under generated stalls", "random configurations of each buffer"),
 "P14": ("property-based testing: reference stuffing under generated stalls", "adversarial byte content"),
 "P15": ("property-based testing: stream model with forced end times", "stalls and forced ends at every cycle"),
 "P16": ("property-based testing: bit conservation under generated stalls", "all four converters"),
 "P17": ("model-based testing against a memory model with generated latencies", "bursts, stalls, restarts"),
 "P18": ("property-based testing of each unit against a reference model", "widths, delays, enables, budgets"),
 "P19": ("property-based round-trip testing", "AddressSanitizer build driven with generated images"),
 "P20": ("property-based differential testing against an independent encoder", "generated streams of every predictor"),
 "P21": ("coverage-guided fuzzing and structured mutation with sanitizers", "libFuzzer plus generated mutations"),
 "P22": ("stateful model-based testing of the driver against the simulated register block", "driver call histories"),
 "P23": ("stateful model-based testing of the driver against a device model", "driver call histories"),
 "P24": ("property-based testing of the tools against reference functions", "generated file contents"),
 "P27": ("property-based testing of cycle counts against an ideal pipeline model", "frames, configurations, pauses"),
 "P26": ("model-based testing against a memory model with generated latencies and handshakes", "frames, restarts and pauses, whole default frames"),
 "P25": ("differential testing of generated Verilog against the elaborated design", "every generated module"),
}
