"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

S = "src/synthpix/"
SCH = S + "scheduler/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "A non-looping pass serves every readable slice exactly once, in order",
     "A non-looping file scheduler delivers, over any sequence of batch requests, every slice of every readable "
     "listed file exactly once, in list order (or in the order of one permutation of the files when shuffling is on), "
     "with each file's slices in order. A path that is listed several times is served as many times; a file that "
     "cannot be loaded is skipped without affecting the others.",
     ["inputs", "histories", "configurations"],
     "every file list up to length 4 over a small alphabet of files (different slice counts, duplicates, unreadable "
     "files), every sequence of batch sizes, shuffling on and off, every file format",
     "Tests use one or two hand-made lists without adjacent duplicates and one batch size; the order/coverage "
     "guarantee quantifies over all lists and all request sequences.",
     [SCH + "base.py", SCH + "hdf5.py", SCH + "mat.py", SCH + "numpy.py"],
     [("slice iteration with a one-file cache", SCH + "base.py:_get_next"),
      ("end of file detection", SCH + "*.py:get_next_slice")],
     [("index/_slice_idx/_cached_file", "cursor over files and slices", SCH + "base.py")],
     ["get_batch() results", "files reported with a batch"])

prop("C02", "Every batch has the requested size, correct padding, mask and file names",
     "Every batch a file scheduler returns has exactly the requested number of rows; valid rows come first, hold "
     "exactly the flow field (and images, when enabled) of the file named at the same row and are marked valid. "
     "The remaining rows of a short final batch are zero, carry an empty file name and are marked invalid; a batch "
     "is never entirely padding.",
     ["inputs", "histories", "configurations"],
     "every batch-size sequence against every small dataset, for every file format, with and without images",
     "Tests check the mask of one short batch for one format; the row-wise agreement of data, mask and file name is "
     "not checked across formats, image kinds and request sequences.",
     [SCH + "base.py", SCH + "mat.py", SCH + "numpy.py", SCH + "hdf5.py"],
     [("stack, pad and mask", SCH + "base.py:get_batch")],
     [("mask", "validity of each row", SCH + "base.py:get_batch")],
     ["SchedulerData.flow_fields/images1/images2/mask/files"])

prop("C03", "Looping and reset: whole passes for ever, and a reset starts a fresh pass",
     "A looping scheduler never ends: it returns only full, fully valid batches, and its stream is a concatenation of "
     "passes each of which serves every slice of every readable file exactly once. Resetting a scheduler at any moment "
     "abandons the current pass and starts a new complete one, and without shuffling the stream after a reset equals "
     "that of a new scheduler. Two schedulers built with the same files, options and random key give the same stream "
     "under the same requests, also when built from a configuration, and shuffling depends on the key.",
     ["histories", "configurations", "inputs"],
     "every interleaving of batch requests and resets up to a depth, looping/shuffling on and off, several keys",
     "Tests reset once from one state and check a counter; the guarantee is over every history of requests and resets.",
     [SCH + "base.py", SCH + "hdf5.py", SCH + "mat.py", SCH + "numpy.py"],
     [("reset and reshuffle", SCH + "base.py:reset"), ("wrap-around", SCH + "base.py:_get_next"),
      ("construction from configuration", SCH + "*.py:from_config")],
     [("key", "shuffling key advanced at each reset", SCH + "base.py")], ["get_batch() stream"])

prop("C04", "End of data is final and every source terminates",
     "Once a scheduler or a sampler (also through prefetching) has reported the end of its data, every further request reports the end again until "
     "it is reset; stale or invented data is never returned, and a sampler never repeats the flow fields of an earlier "
     "batch after the end. A request never hangs: a source none of whose files can be read reports the end of data "
     "instead of searching for ever.",
     ["histories", "configurations", "fault_sequences"],
     "every stack of scheduler, prefetcher and sampler over small datasets, every number of requests before and after "
     "the end, looping on and off, any subset of files unreadable",
     "Tests stop at the first end-of-data signal and never ask again, and never make all files unreadable.",
     [SCH + "base.py", SCH + "prefetch.py", S + "sampler/synthetic.py", S + "sampler/real.py"],
     [("StopIteration propagation", SCH + "base.py:get_batch"), ("end-of-stream sentinel", SCH + "prefetch.py:_worker"),
      ("flow batch switching", S + "sampler/synthetic.py:_get_next")],
     [("_batches_generated", "image batches made from the current flow batch", S + "sampler/synthetic.py")],
     ["StopIteration from get_batch()/next()"])

prop("C05", "Recorded data is loaded faithfully, and rescaled consistently when resized",
     "Flow fields and images served by the file schedulers equal the arrays stored in the file, for every supported "
     "container version and channel layout (of a "
     "three-component HDF5 flow, the in-plane components). When recorded images and flow are resized to a requested (height, width), "
     "everything served has exactly that height and width, is the bilinear/bicubic resampling of the recorded data in "
     "the same orientation, and each flow component is scaled by the resize ratio of its own axis. The announced flow "
     "shape agrees with what is served.",
     ["inputs", "configurations"],
     "every recorded shape and requested shape over a small set of heights and widths (square and not), channel-first "
     "and channel-last flow, legacy and HDF5-based containers, with and without images",
     "Tests resize square data only; orientation and per-axis scaling errors are invisible on squares.",
     [SCH + "mat.py", SCH + "hdf5.py", SCH + "numpy.py"],
     [("resize and scale", SCH + "mat.py:load_file"), ("image pairing", SCH + "numpy.py:get_next_slice"),
      ("slicing", SCH + "hdf5.py:get_next_slice")], (), ["get_batch()", "get_flow_fields_shape()"])

prop("C06", "A directory entry stands for exactly its data files; bad inputs are refused",
     "Giving a scheduler a directory is equivalent to giving it, in sorted order, the data files of its format found in "
     "that directory (MATLAB files: also in its subdirectories), whatever characters the directory name contains, and mixing directories and files keeps list "
     "order. A missing file, a file of another format, an empty or ill-typed list, or (with images enabled) a flow "
     "field without its image pair is refused at construction rather than during iteration.",
     ["inputs", "configurations"],
     "every mix of up to three entries from a set of directories and files, with ordinary and special directory names, for "
     "each format",
     "Tests expand one ordinary directory of one format; names with pattern characters and mixed lists are not tried.",
     [SCH + "base.py", SCH + "hdf5.py", SCH + "mat.py", SCH + "numpy.py"],
     [("directory expansion", SCH + "base.py:__init__"), ("extension checks", SCH + "*.py:__init__")], (),
     ["file_list", "constructor exceptions"])

prop("C07", "Every row of an episode plays consecutive frames of one sequence",
     "Within an episode, the row b of the t-th batch is the t-th frame of one run of consecutive frames, in file-name order, of "
     "a single sequence directory, the same run for the whole episode, for every row independently (rows may coincide or "
     "overlap). An episode has exactly the configured number of steps, after which the end of the episode is signalled "
     "on every request until the next episode or a reset is asked for, at any step; the remaining-step count is always "
     "the configured length minus the steps taken. This holds whatever the shuffling and looping options of the "
     "underlying scheduler.",
     ["histories", "configurations", "inputs"],
     "every history of step, next-episode and reset requests up to a depth, for every small directory layout, row "
     "count, episode length, key and underlying scheduler option",
     "Tests check one layout with one key where chosen starts happen not to collide, and never shuffle the underlying "
     "scheduler.",
     [SCH + "episodic.py", SCH + "base.py"],
     [("time-major interleaving of the file order", SCH + "episodic.py:_sample_new_episodes"),
      ("cursor over the injected order", SCH + "base.py:_get_next")],
     [("_t", "step within the episode", SCH + "episodic.py")], ["get_batch().files", "steps_remaining()", "EpisodeEnd"])

prop("C08", "Episode starts are exactly the admissible ones, and reproducible from the key",
     "The first frame of every episode row is one from which a full episode fits in its sequence; every such start of "
     "every leaf sequence can be drawn, whatever the directory names (hidden ones are not searched), and a dataset with a too short sequence is "
     "refused. The sequence of episodes is a function of the dataset, the options and the key only: it does not depend "
     "on the process, its hash seed, or the moment at which an episode is abandoned.",
     ["inputs", "configurations", "histories"],
     "every layout with up to 3 sequences of up to 4 frames and every episode length; several hash seeds; every step "
     "at which an episode may be abandoned",
     "Tests run in one process with a pinned hash seed, so dependence on set order cannot show.",
     [SCH + "episodic.py", S + "utils.py"],
     [("enumeration of starts", SCH + "episodic.py:_calculate_starts"), ("leaf directories", S + "utils.py:discover_leaf_dirs")],
     (), ["get_batch().files at the first step", "constructor ValueError"])

prop("C09", "Prefetching is transparent: same batches, same order, none lost",
     "Whatever the interleaving of the background producer and the consumer, the buffer size and the pauses of either side, a consumer of "
     "the prefetching scheduler receives exactly the batches the wrapped scheduler would have produced, each once and in "
     "order, followed by the end-of-data signal. Only when the wrapped scheduler takes longer than the configured "
     "timeout may a request report that no data is available, and then the next request continues with the very next "
     "batch.",
     ["schedules", "histories", "configurations"],
     "all interleavings of producer and consumer up to a preemption bound, every stream length and buffer size up to a "
     "bound, every placement of a long pause on either side",
     "Tests run the two threads freely, so only a few interleavings ever occur, and slow consumers at end of data are "
     "not checked for content.",
     [SCH + "prefetch.py"],
     [("bounded queue and background worker", SCH + "prefetch.py:_worker"), ("end-of-stream sentinel", SCH + "prefetch.py:_worker"),
      ("timeouts", SCH + "prefetch.py:get_batch")],
     [("_queue", "prefetched batches", SCH + "prefetch.py")], ["get_batch() results"])

prop("C10", "Shutdown always returns and always ends the background producer",
     "Shutting a prefetching scheduler down, at any moment, any number of times, before or after the first request, and "
     "from the consumer or another thread, returns without deadlock, and the background producer then terminates "
     "as soon as the request it is making of the wrapped scheduler, if any, has returned. A consumer that is waiting for data when another thread shuts "
     "the scheduler down is released.",
     ["schedules", "histories"],
     "all interleavings up to a preemption bound of producer, consumer and closer, every buffer size and stream length "
     "up to a bound, every point in the stream at which shutdown is called",
     "Tests shut down at a few quiet moments; the window between freeing a slot and stealing it is never hit.",
     [SCH + "prefetch.py"], [("stop event, slot release, sentinel and join", SCH + "prefetch.py:shutdown")],
     [("_stop_event", "asks the worker to stop", SCH + "prefetch.py")], ["is_running()", "live threads", "shutdown() returning"])

prop("C11", "Reset of a prefetching scheduler starts a clean stream with no stale data",
     "After a reset of the prefetching scheduler, at any moment including after a shutdown, the consumer receives exactly "
     "the stream a freshly reset wrapped scheduler produces, from its beginning, with nothing left over from before. "
     "The wrapped scheduler is never used by two threads at the same time, and no producer from before the reset "
     "survives it.",
     ["schedules", "histories"],
     "all interleavings up to a preemption bound, every position in the stream at which reset is called, repeated resets",
     "Tests reset at one quiet moment and only look at flags and queue emptiness, not at the delivered content.",
     [SCH + "prefetch.py"], [("stop, drain, join, reinitialise", SCH + "prefetch.py:reset")],
     [("_thread", "current producer", SCH + "prefetch.py")], ["get_batch() results after reset()", "calls on the wrapped scheduler"])

prop("C12", "Prefetching keeps episodes aligned",
     "With prefetching over an episodic scheduler, the batch delivered at step t of the k-th episode asked for is "
     "always step t of a single new episode of the wrapped scheduler, the episode end is signalled after exactly the "
     "configured number of steps, and the remaining-step count is that of the consumer. Abandoning an episode at any "
     "step, repeatedly, before the first request or with a slow producer, never lets a batch of an abandoned "
     "episode be delivered later.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings up to a preemption bound of producer and consumer, every history of step/next-episode/reset "
     "requests up to a depth, every placement of a long producer pause",
     "Tests check only that a counter is zero after moving on; the content delivered afterwards is not checked.",
     [SCH + "prefetch.py", SCH + "episodic.py"],
     [("discarding the rest of an episode", SCH + "prefetch.py:next_episode"), ("producer-side episode advance", SCH + "prefetch.py:_worker")],
     [("_t", "consumer step in the episode", SCH + "prefetch.py")], ["get_batch() results", "EpisodeEnd", "steps_remaining()"])

prop("C13", "A failing producer is reported as a failure, not as the end of the data",
     "If the wrapped scheduler raises an unexpected error while prefetching, the batches produced before it are still "
     "delivered in order and the consumer then gets that error, never a normal end-of-data signal or a silent "
     "hang. After the failure the prefetching scheduler can still be shut down and reset.",
     ["fault_sequences", "schedules"],
     "an error injected at every request made of the wrapped scheduler, all interleavings up to a preemption bound",
     "No test makes the wrapped scheduler fail with anything but the end-of-data signal.",
     [SCH + "prefetch.py"], [("exception handling in the worker", SCH + "prefetch.py:_worker")], (), ["exception from get_batch()"])

prop("C14", "Concurrent consumers share one stream without loss or duplication",
     "When several threads request batches from the same prefetching scheduler at the same time, also for the very "
     "first request, every batch of the stream is delivered to exactly one of them, each consumer sees batches in "
     "stream order, and no request fails while data remains. A single background producer serves them all.",
     ["schedules"],
     "all interleavings up to a preemption bound of two or three consumers and the producer, including between any two source lines",
     "One test starts five threads once; the racing first request is decided by the operating system.",
     [SCH + "prefetch.py"], [("lazy start of the worker", SCH + "prefetch.py:_start_worker"), ("thread-safe queue", SCH + "prefetch.py:get_batch")],
     [("_started", "worker has been started", SCH + "prefetch.py")], ["get_batch() results of each thread", "threads started"])

prop("C15", "Each synthetic sample is paired with the flow field it was generated from",
     "In every synthetic batch made on one device, image pair i is generated from flow field i modulo the number of flow fields in use, "
     "and its flow label is that same flow field; the validity mask and file names delivered with the batch are those "
     "of the flow fields in use. Every group of flow fields drawn from the scheduler is used for exactly the configured number of "
     "consecutive batches before the next group is drawn, none is skipped, and a reset starts again with a newly drawn group.",
     ["histories", "configurations"],
     "every batch size, flow-field count, reuse count up to a bound, every history of next and reset requests up to a depth",
     "Tests compare flow labels of consecutive batches for one configuration; image-to-label pairing is not observed.",
     [S + "sampler/synthetic.py", S + "data_generate.py", S + "utils.py"],
     [("flow selection by index modulo", S + "data_generate.py:scan_body"), ("label tiling", S + "utils.py:flow_field_adapter"),
      ("flow batch switching", S + "sampler/synthetic.py:_get_next")],
     [("_current_flows/_batches_generated", "flow group in use and its use count", S + "sampler/synthetic.py")],
     ["SynthpixBatch.images1/images2/flow_fields/mask/files"])

prop("C16", "Sampling is reproducible from the seed, and never repeats images within a run",
     "Two samplers with the same configuration and seed deliver bit-identical batches under the same requests, and a "
     "reset returns a sampler over a non-shuffling source to the beginning of that sequence, from any state. Different seeds, "
     "different batches of the same run and different rows of a batch get different random particle images.",
     ["histories", "configurations"],
     "every history of next and reset (with and without resetting the source) up to a depth, several seeds",
     "Tests compare a single first batch; the guarantee is over every history of requests and resets.",
     [S + "sampler/synthetic.py", S + "data_generate.py"],
     [("key splitting per batch and folding per row", S + "sampler/synthetic.py:_get_next")],
     [("_rng", "random state", S + "sampler/synthetic.py")], ["SynthpixBatch contents"])

prop("C17", "Samplers report episode ends exactly",
     "A sampler over an episodic source (with or without prefetching) marks every row done exactly at the last step of "
     "an episode and no other, signals the episode end on every request after it, and delivers the first step of a new "
     "episode after it is told to move on, at any step, or is reset. Over a non-episodic source no done flag is given, prefetching or not, "
     "and asking for the next episode of one without prefetching is an error.",
     ["histories", "configurations"],
     "every history of next, next-episode and reset requests up to a depth, for real and synthetic samplers, "
     "prefetching on and off, several flow reuse counts and episode lengths",
     "Tests follow one episode from start to end.",
     [S + "sampler/base.py", S + "sampler/real.py", S + "sampler/synthetic.py", SCH + "episodic.py", SCH + "prefetch.py"],
     [("done flag and guard", S + "sampler/base.py:__next__")], (), ["SynthpixBatch.done/files", "EpisodeEnd"])

prop("C18", "Accepted geometry always yields images and labels of the configured shape",
     "For every combination of image shape, resolution, offset, flow-field extent and speed range that the synthetic "
     "sampler accepts, the images have exactly the configured shape, the flow labels have that shape times the "
     "configured label density, and the labels are the source flow field sampled over the image's own location (to within one grid step and one label). Exactly "
     "the combinations in which the image, enlarged by the distance particles can travel, does not fit into the flow field are refused.",
     ["configurations"],
     "every combination from a grid of shapes, resolutions (including ones not exactly representable), offsets, extents, speeds, "
     "time steps and label densities",
     "Tests use resolutions and sizes for which all products are integers, where truncation cannot show.",
     [S + "sampler/synthetic.py", S + "utils.py", S + "data_generate.py"],
     [("bounds computation", S + "sampler/synthetic.py:__init__"), ("cropping", S + "data_generate.py"),
      ("label resampling", S + "utils.py:flow_field_adapter")], (), ["SynthpixBatch shapes and flow_fields", "constructor ValueError"])

prop("C19", "Uniform flow moves the particle image by exactly the labelled displacement",
     "For a spatially uniform flow field and no noise, parameter variation or hidden particles, the second image of every pair is the first image "
     "translated by exactly the displacement the label states in pixels (velocity times time step times resolution, "
     "x along columns and y along rows), everywhere away from the border region. This holds for every accepted resolution, flow grid size, "
     "extent, offset and row of the batch.",
     ["configurations", "inputs"],
     "every integer displacement in a small range along both axes, crossed with resolutions, flow grid densities, "
     "offsets, time steps and device counts, including ones where areas are not whole numbers of grid steps",
     "No test compares the two images with the label; unit tests check each stage separately with integer ratios.",
     [S + "sampler/synthetic.py", S + "data_generate.py", S + "apply.py", S + "utils.py", S + "generate.py"],
     [("unit conversions", S + "data_generate.py:scan_body"), ("label units", S + "utils.py:flow_field_adapter")], (),
     ["SynthpixBatch.images1/images2/flow_fields"])

prop("C20", "Particles are displaced by the interpolated local velocity",
     "Applying a flow field to particles moves each one, independently of the others, by the time step times the velocity at its position, converted "
     "to grid steps per axis, where the velocity is the bilinear (in space: trilinear) interpolation of the "
     "surrounding grid values and positions outside the grid use the nearest edge value. Array generation from a "
     "flow function evaluates it at every grid node, and inconsistent inputs are refused by the input checks.",
     ["inputs"],
     "every position on a fractional lattice in and around grids of all small shapes (non-square included), all unit flow "
     "basis fields (the map is linear in the flow), several time steps and per-axis resolutions, 2D and 3D",
     "Tests use a handful of positions, mostly on square grids and away from edges.",
     [S + "apply.py", S + "utils.py"],
     [("interpolation", S + "utils.py:bilinear_interpolate, trilinear_interpolate"), ("update", S + "apply.py:apply_flow_to_particles")],
     (), ["apply_flow_to_particles()", "bilinear_interpolate()", "trilinear_interpolate()"])

prop("C21", "Particle images are the sum of each particle's Gaussian spot",
     "A rendered particle image is the sum, over particles, of a Gaussian spot centred at the particle's (row, column) position "
     "(moved, if need be, to the nearest one at which its patch fits into the image) with its own peak intensity, widths and correlation, truncated to a "
     "fixed patch around its pixel. The result does not depend on the order of the particles, particles of zero intensity contribute nothing, non-square images are "
     "handled, no spot wraps around a border, and with clipping values stay in the 8-bit range.",
     ["inputs"],
     "every position on a sub-pixel lattice in and around small images of all shapes, every pair of parameters "
     "from a small set, every order of up to three particles",
     "Tests check shape and a few peaks, not the whole image for all sub-pixel positions and borders.",
     [S + "generate.py"], [("patch scatter", S + "generate.py:img_gen_from_data"), ("kernel", S + "generate.py:gaussian_2d_correlated")],
     (), ["img_gen_from_data()"])

prop("C22", "Generated image pairs respect every generation parameter",
     "Generated pairs are finite and within [0, 255]; where an image mask is zero both images are exactly zero (unless a histogram is matched) and elsewhere "
     "the mask changes nothing. Reported seeding density and diameter, intensity and correlation ranges are admissible ones, "
     "are those the images were made from, and every configured range is used; hiding probabilities 0 and 1 show all or no particles in the image they concern and only there; "
     "zero variances keep the particle appearance equal in both images, and noise settings act as specified.",
     ["configurations", "inputs"],
     "every combination of extreme settings (hiding 0/1, variances, noise kinds, one or two ranges, mask patterns, density "
     "ranges including zero) over several seeds",
     "Tests vary one parameter at a time and look at shapes and global ranges.",
     [S + "data_generate.py", S + "generate.py", S + "sampler/synthetic.py"],
     [("parameter sampling and composition", S + "data_generate.py:generate_images_from_flow"), ("noise", S + "generate.py:add_noise_to_image")],
     (), ["images1/images2/params"])

prop("C23", "Histogram matching follows the target histogram",
     "Matching an image to a target histogram maps each grey level to the lowest level whose target cumulative "
     "fraction reaches the level's own cumulative fraction, so equal levels stay equal, order is preserved, output values are "
     "whole levels in 0..255 and an image that already has the target histogram is unchanged.",
     ["inputs"],
     "every image of up to 4 pixels over a set of levels including the extremes and fractional values, against every target histogram with the same "
     "number of pixels over a set of levels",
     "Tests use two fixed histograms and a statistical distance.",
     [S + "utils.py"], [("cumulative matching", S + "utils.py:match_histogram")], (), ["match_histogram()"])

prop("C24", "Flow labels are resampled, cropped, scaled and tiled correctly",
     "Adapting flow fields returns exactly the requested number of labels, the i-th one derived from flow field i "
     "modulo their number, each the interpolation of the source flow over the requested image window at the requested "
     "shape, in pixels per frame pair (times resolution and time step) or unchanged in physical units; the flow "
     "region returned for particle motion is the window of the position bounds in unchanged units.",
     ["configurations", "inputs"],
     "every combination from a grid of source shapes, output shapes, offsets, resolutions, paddings, batch sizes and units, with flow values that identify node and channel",
     "Tests check output shapes and one constant field.",
     [S + "utils.py"], [("resampling", S + "utils.py:flow_field_adapter")], (), ["flow_field_adapter()"])

prop("C25", "Image warping follows its definition in both directions",
     "Backward warping samples the image at the pixel position minus the displacement with edge clamping; forward warping deposits each "
     "pixel bilinearly at its position plus the displacement, keeping total intensity when everything lands inside, and dropping "
     "exactly what lands outside. Both are linear in the image, the flow-function variant equals the array variant on the same flow "
     "evaluated at (t, x, y), and zero flow or zero time step is the identity.",
     ["inputs"],
     "every unit-pixel image and flow vector on a fractional lattice for all small image shapes, non-square included",
     "Tests use two symmetric flows on square images.",
     [S + "apply.py", S + "utils.py"], [("splatting", S + "apply.py:apply_flow_to_image_forward"), ("sampling", S + "apply.py:apply_flow_to_image_backward")],
     (), ["apply_flow_to_image_forward/backward/callable()"])

prop("C26", "Updating a configuration file changes only the given keys",
     "After a configuration file is updated with new values, loading it gives the previous configuration with exactly "
     "those keys changed to exactly those values: every other entry keeps its value and type, existing entries keep their order and new ones come after them, "
     "the file list is kept, and updating again with the same values changes nothing.",
     ["inputs", "histories"],
     "every configuration of up to 2 entries and an update drawn from a set of YAML value kinds (null, booleans, numbers, "
     "tricky strings, nested lists and mappings, file lists as list or string), every sequence of up to 2 updates",
     "Tests update plain numbers and compare a few of them.",
     [S + "sanity.py"], [("rewrite of the file", S + "sanity.py:update_config_file")], (), ["file contents as loaded again"])

prop("C27", "A crash while updating a configuration file never loses it",
     "If the process dies, or a write fails, at any moment while a configuration file is being updated, the file afterwards "
     "loads as either the complete old or the complete new configuration, and updating it again then succeeds.",
     ["crash_points", "fault_sequences"],
     "every prefix of the file-system operations of an update, every torn write of the data, every failing operation",
     "Tests never interrupt the update.",
     [S + "sanity.py"], [("rewrite of the file", S + "sanity.py:update_config_file")], (), ["file contents after the crash"])

prop("C28", "The factory builds what the configuration says",
     "A sampler made from a configuration (a mapping or an equal YAML file) delivers the same stream as one assembled by hand from the same "
     "scheduler, episode, prefetch and sampler settings; turning prefetching on or changing its buffer does not change the stream, every "
     "accepted combination of batch size, flow fields per batch, episodes and prefetching can actually be iterated, and the seed determines everything. Missing or "
     "ill-typed required settings are refused with an error before any data is produced.",
     ["configurations"],
     "the full lattice of batch size, flow fields per batch, buffer size, episode length, shuffling, looping, image kind, "
     "file format and seed over small sets; every single-key deletion or corruption of a valid configuration",
     "Tests replace all parts by dummies and check the arguments of a few configurations.",
     [S + "make.py", S + "sampler/synthetic.py", S + "sampler/real.py", SCH + "prefetch.py", SCH + "episodic.py"],
     [("assembly", S + "make.py:make")], (), ["stream of the returned sampler", "exceptions of make()"])

prop("C29", "Computed speed ranges bound the data exactly",
     "The speed range computed for a list of files is exactly the minimum and maximum of each velocity component (of a "
     "three-component flow, the in-plane ones) over all data of all files, independent of file order, and the sanity check stores and returns exactly those when speeds "
     "are missing, returns the configured ones untouched when none is missing, and leaves the file alone if the user declines.",
     ["inputs", "histories"],
     "every placement of the extreme value of each component over files, slices and cells of small datasets, 3-D and 4-D "
     "layouts; every subset of missing speed keys and every user answer",
     "Tests use one random file.",
     [S + "sanity.py"], [("running extrema", S + "sanity.py:calculate_min_and_max_speeds"), ("panel", S + "sanity.py:missing_speeds_panel")],
     (), ["returned values", "configuration file"])

prop("C30", "Generation settings are validated on creation and on every update",
     "A set of image generation settings can exist only if every field is admissible (as documented); creating or updating to an inadmissible "
     "one raises an error naming it, an admissible one is never refused, and an update returns a new object that "
     "differs from the old one in exactly the given fields, leaving the old one untouched.",
     ["inputs", "histories"],
     "every field with every value of a boundary alphabet, singly and in pairs, every sequence of two updates",
     "Tests try one or two bad values per field and never pairs or update chains.",
     [S + "types.py"], [("validation", S + "types.py:ImageGenerationSpecification.__post_init__"), ("update", S + "types.py:update")],
     (), ["constructor/update result or ValueError"])

prop("C31", "Batch containers survive functional updates and tree transformations",
     "Updating a batch container returns a new one that differs in exactly the given fields and leaves the original untouched; flattening and rebuilding a batch "
     "(as array-program transformations do) gives back every field in its place, for every combination of present and "
     "absent optional fields, and mapping over it touches every array exactly once.",
     ["inputs", "programs"],
     "every subset of optional fields present, every subset of fields updated, every tree operation (flatten/unflatten, "
     "map, jit, scan-carry)",
     "Tests never flatten a batch with optional fields missing.",
     [S + "types.py"], [("tree registration", S + "types.py:tree_flatten/tree_unflatten")], (), ["fields of the result"])

prop("C32", "The number of devices changes throughput, not meaning",
     "Whatever the number of devices in use, a batch contains exactly the accepted batch size of samples (rounded up to a multiple of the device count), "
     "every sample's images move by its own label, every drawn flow field is used, samples on different devices get different "
     "random images, and selecting devices never changes the flow fields drawn from the source.",
     ["configurations"],
     "1, 2 and 4 (virtual) devices, every batch size and flow-field count up to a bound, every selection of devices",
     "The multi-device tests check only the batch dimension.",
     [S + "sampler/synthetic.py"], [("sharding of flow fields and keys", S + "sampler/synthetic.py:__init__, _get_next")], (),
     ["SynthpixBatch contents"])

prop("C33", "What is delivered and what is passed in belongs to the caller",
     "What a scheduler or sampler has delivered never changes afterwards, whatever is requested later, and overwriting delivered arrays never affects "
     "later batches. File lists and configuration mappings passed in are neither modified, nor is the stream affected by later "
     "modifications of them.",
     ["histories", "programs"],
     "every request string to a depth on base, episodic and prefetching schedulers, both samplers and the factory, with a caller that keeps, or overwrites, "
     "every delivered array and every argument",
     "Tests look at a batch when it is delivered and throw it away; none writes into one or looks at it again.",
     [SCH + "base.py", SCH + "episodic.py", SCH + "prefetch.py", SCH + "hdf5.py", S + "sampler/base.py", S + "make.py"],
     [("assembly of a batch", SCH + "base.py:get_batch"), ("file cache", SCH + "base.py:_cached_data"), ("configuration", S + "make.py:make")],
     (), ["delivered arrays, later on", "arguments, later on"])

prop("C34", "Objects built in one process are independent",
     "What a scheduler, an episodic or prefetching stack, or a sampler delivers depends only on its own arguments and the requests made of it, not on "
     "what else was built, asked for, reset or shut down in the same process, also where others read the same files.",
     ["histories", "configurations", "schedules"],
     "all interleavings, to a depth, of the operations of two schedulers over the same files, of two stacks, and of samplers with every pair of 15 "
     "settings, against what each does alone",
     "Tests build one object at a time, or several and use only the last one.",
     [SCH + "base.py", SCH + "episodic.py", SCH + "prefetch.py", S + "sampler/synthetic.py", S + "generate.py", S + "data_generate.py"],
     [("state of a scheduler", SCH + "base.py:__init__"), ("compiled functions", S + "sampler/synthetic.py:__init__")], (),
     ["delivered batches", "SynthpixBatch contents"])

prop("C35", "Prefetching reads ahead as far as configured, and no further",
     "While the consumer pauses, the prefetching producer goes on reading until the configured number of batches is ready, so that as many requests "
     "after a long enough pause are answered without waiting for the source; it never asks the source for more than the buffer holds and the one batch "
     "in its hand, also after resets and abandoned episodes.",
     ["schedules", "histories"],
     "all schedules of the real producer and consumers to a preemption bound, over all short strings of requests, pauses, resets and abandoned episodes",
     "Tests compare delivered batches, which are the same whether or not anything was read ahead.",
     [SCH + "prefetch.py"],
     [("read-ahead", SCH + "prefetch.py:_produce"), ("bounded buffer", SCH + "prefetch.py:_put_batch"), ("reset", SCH + "prefetch.py:reset")], (),
     ["time a request waits", "calls of the wrapped scheduler"])

prop("C36", "Recorded image pairs and flows reach the user exactly as recorded",
     "The sampler of recorded data delivers, for every request, exactly the rows the underlying scheduler serves next: first and second image in their "
     "places and the flow field, with the recorded values in single precision, and the validity mask and file names of the same rows; short last batches, "
     "resets, the end of the data and prefetching included. A source that does not record images is refused at construction.",
     ["histories", "inputs", "configurations"],
     "all strings of requests and resets to a depth, over all small datasets and options, each row, image and flow compared with the recorded data; all "
     "recorded number types with extreme values; all stacks with and without images",
     "Tests look at shapes and types of a batch or two.",
     [S + "sampler/real.py", S + "sampler/base.py", SCH + "numpy.py", SCH + "mat.py"],
     [("batch", S + "sampler/real.py:_get_next"), ("refusal", S + "sampler/real.py:__init__")], (),
     ["SynthpixBatch images, flow fields, mask and files"])

prop("C37", "A configured image mask and histogram reach every image",
     "A sampler configured with an image mask (array, or path of a file) delivers only images that are exactly zero where the mask is zero and otherwise "
     "those of the same sampler without it; with a histogram every delivered image is the matched one (after masking). Labels, file names and validity "
     "mask do not change, and the files are read at construction. Masks or histograms that do not exist, are no arrays or have another shape, "
     "mask files with other values than 0 and 1, and histograms with another total than the number of pixels are refused at construction.",
     ["inputs", "configurations"],
     "9 masks, 5 histograms and pairs of them, in every number type, configured in every way, over streams with a reset; every single corruption",
     "Tests build one sampler with a mask of ones, or test the function alone.",
     [S + "sampler/synthetic.py", S + "data_generate.py", S + "make.py"],
     [("configuration", S + "sampler/synthetic.py:from_config"), ("checks", S + "sampler/synthetic.py:__init__"),
      ("use", S + "sampler/synthetic.py:_get_next")], (),
     ["SynthpixBatch images", "refusals at construction"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
