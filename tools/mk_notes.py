"""Writes tools/notes.json (technique and level note of each check)."""
import json
from pathlib import Path

T = {}
ENUM = "Generated-case search, no proof: everything outside the generated bounds is unexplored. "


def n(pid, technique, note):
    T[pid] = dict(technique="property-based testing (Hypothesis): " + technique, note=ENUM + note)


n("P01", "arithmetic partition oracle over generated shard lists and rank/worker layouts",
  "Simulated workers (torch worker info) for pipelines; the sharder is called directly.")
n("P02", "metamorphic relation between different rank/worker layouts of the same global workers",
  "Workers are simulated in-process; real prepared webdatasets and synthetic sources.")
n("P03", "counting and order oracles over generated shards, slices, exclusions and shuffle settings",
  "Real tar files in a scratch folder; workers simulated in-process.")
n("P04", "differential: interrupted vs uninterrupted run over generated wrapper compositions and save points",
  "Synthetic savable sources; user functions are deterministic; workers simulated in-process.")
n("P05", "differential: resumed loader vs uninterrupted loader, with real worker processes and simulated ones",
  "Real DataLoader worker processes with generated positions; prefetching is real, its timing is not controlled.")
n("P06", "round-trip of restore keys over generated wrapper compositions and real webdatasets",
  "Stateless user functions only.")
n("P07", "differential: rebuilt pipelines under perturbed global random state",
  "Distinctness of shuffles is only asserted where a collision is astronomically unlikely.")
n("P08", "reference model of batching over generated pipelines; exact length oracle", "Synthetic sources.")
n("P09", "reference model of grouped batching incl. read-ahead and error calls", "Synthetic sources.")
n("P10", "reference model of packing incl. the exact sequence of packer calls", "Synthetic sources.")
n("P11", "per-dataset stream equality and a binomial bound on the draw frequencies",
  "Frequencies are checked with a 6.5 sigma bound over 400 draws.")
n("P12", "reference model over generated nestings of length-shaping wrappers", "Synthetic sources.")
n("P13", "reference model of map/filter chains and recorded indices", "Synthetic sources.")
n("P14", "permutation and look-ahead oracle over generated buffers; coverage of draws over seeds",
  "Synthetic sources.")
n("P15", "round-trip of generated tar shards through the readers", "Real tar and index files in a scratch folder.")
n("P16", "independent tar/index oracle over generated shard folders and split settings",
  "The prepare functions are called in-process on scratch folders.")
n("P17", "fault injection: generated reads/seeks and failures of the underlying stream against a byte model",
  "The underlying stream is a stand-in; sleeping between attempts is disabled.")
n("P18", "fault injection into generated pipelines against a model without the failing items",
  "Synthetic sources and real webdatasets; the error handlers are recorded.")
n("P19", "key-pairing oracle over generated pairs of webdatasets", "Real webdatasets in a scratch folder.")
n("P20", "reference resolver over generated nested metadataset files", "Real files in a scratch folder.")
n("P21", "reference evaluator over generated field maps and raw samples", "In-process.")
n("P22", "reference cooker choice over generated subflavors and cookers", "In-process and through a pipeline.")
n("P23", "path algebra laws and pathlib as reference over generated paths", "Local and rclone-style remote paths; no remote access.")
n("P24", "round-trip and rejection over generated typed values and mutations", "Generated dataclasses and type trees.")
n("P25", "differential: merged vs sequential application over generated transforms and images",
  "Tolerances for interpolation; see DESIGN.md.")
n("P26", "reference padding with numpy over generated tensors and structures", "In-process.")
n("P27", "invariant on the global random state over generated stateless functions and failures", "In-process.")
n("P28", "differential logged vs unlogged and parsed log oracle over generated runs", "Workers simulated in-process, plus real worker processes.")
n("P29", "counting oracle over generated task encoder configurations on prepared datasets",
  "Real webdatasets; workers simulated in-process, plus real worker processes.")
n("P30", "fault injection into generated prepared datasets; exit code, listed samples and numbers against the known truth",
  "The click commands run in a forked process on real webdatasets.")
n("P31", "reference model of the heatmap over generated log files, and over the logs of real loader runs",
  "The click command runs in a forked process.")
n("P32", "announced length against the counted deliveries over generated datasets, pipelines and loaders",
  "Pipelines whose counts user functions decide are not generated; simulated workers plus real worker processes.")
n("P33", "metamorphic relation: pipelines differing in one setting and in their deliveries must differ in their configurations",
  "Deliveries are compared on a prefix of each worker's stream; a setting without an observed effect decides nothing.")
(Path(__file__).parent / "notes.json").write_text(json.dumps(T, indent=1) + "\n")
