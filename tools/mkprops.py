"""Writes /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/synthpix/" + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SB, SE, SP = "scheduler/base.py", "scheduler/episodic.py", "scheduler/prefetch.py"
p("C01", "Every slice is delivered exactly once, in order",
  "A non-looping scheduler over a list of data files delivers every slice of every readable file exactly once: files in list order (a file listed several times, adjacent or not, is served each time; a directory stands, in its place, for the files of the format in it, sorted by path), slices of a file in ascending order. Files that cannot be read are skipped without affecting the others. When nothing is left it raises StopIteration, and keeps doing so until reset.",
  ["inputs", "histories"], "all file lists (any length, duplicates, unreadable and empty files), all slice counts, any number of requests",
  "Tests walk a handful of lists with one layout; the property ranges over all lists, fault patterns and request histories.",
  [SB], [("cursor over (file index, slice index) with a one-file cache", "BaseFlowFieldScheduler._get_next")], ["get_batch", "_get_next"])
p("C02", "Batches are the stream cut in pieces, padded and masked",
  "A request for a batch of n consumes exactly the next min(n, remaining) slices of the stream and returns them in order, each position pairing the flow field with its own images and file name. Missing positions of the last batch of a non-looping scheduler are zero-filled with an empty file name; the boolean mask has length n and is true exactly at the real slices. If nothing remains StopIteration is raised instead of an empty batch.",
  ["inputs", "histories"], "all batch sizes, all amounts of remaining data, with and without images",
  "Tests use two or three batch sizes; padding, mask and file names must agree for every combination of n and remaining.",
  [SB], [("padding and masking", "BaseFlowFieldScheduler.get_batch")], ["get_batch"])
p("C03", "Looping and shuffling: endless passes, each a permutation",
  "A looping scheduler never runs out: after the last slice it restarts with the first file of a new pass, so every batch is full and its mask all true. With randomization on, the order after construction and after every reset is a permutation of the same files (nothing lost or duplicated) and depends only on the key and the number of resets; with it off, the order is the listed one. Resetting always restarts at the first slice of the first file in the current order.",
  ["inputs", "histories"], "all list lengths, keys, numbers of passes and resets at any point",
  "Tests check one shuffle of a few files and one wrap-around.",
  [SB], [("wrap-around", "BaseFlowFieldScheduler._get_next"), ("shuffle", "BaseFlowFieldScheduler.__init__, reset")], ["get_batch", "reset", "file_list"])
p("C04", "HDF5 files are served slice by slice along y",
  "Loading an HDF5 file yields its first dataset unchanged, and iterating over it serves, for y = 0, 1, ..., Y-1 and nothing else, the flow field data[:, y, :, :] labelled with the path of that file. A file whose first entry is not a dataset is an error rather than data. A listed directory stands for the .h5 files in it at any depth; a listed file without that extension is refused. The shape reported for the flow fields is that of the slices of the first file.",
  ["inputs"], "all dataset shapes and contents", "Tests read fixed small files and compare a few slices.",
  ["scheduler/hdf5.py"], [("y slicing", "HDF5FlowFieldScheduler.get_next_slice, load_file")], ["get_batch"])
p("C05", "MAT files: layout, size and velocity scaling",
  "Each .mat file yields exactly one item, labelled with its path: the flow as (height, width, 2) at the configured output shape, channel-first input (unless its last axis has two components as well) being transposed, and, when images are requested, both images at that same shape (height, width) and in their order. Data already of that shape is passed through unchanged; otherwise the x velocities are scaled by the width ratio and the y velocities by the height ratio, whatever numeric type they are stored in. A file without a flow, or without images when they are requested, is an error. A listed directory stands for the .mat files in it at any depth; a listed file without that extension is refused. The shape reported for the flow fields is (height, width, 2) of the output shape.",
  ["inputs"], "all input shapes (square or not), layouts and output shapes",
  "Tests use square shapes, where swapped axes are invisible.",
  ["scheduler/mat.py"], [("resize and scale", "MATFlowFieldScheduler.load_file"), ("one slice per file", "MATFlowFieldScheduler.get_next_slice")], ["load_file", "get_batch"])
p("C06", "NumPy flows are paired with their own frames",
  "Each flow_<t>.npy file yields exactly one item holding that array unchanged, labelled with its path; when images are requested they are img_<t-1>.jpg (first) and img_<t>.jpg (second) of the same folder, for every t. With images requested, construction fails if a name does not follow the pattern or if either image of any listed flow is missing; without, no image is returned. A listed directory stands for the flow_*.npy files in it; a listed file that is not a .npy file is refused. The shape reported for the flow fields is that of the first array.",
  ["inputs"], "all frame numbers, folders and missing-file patterns", "Tests use t=1 and one folder.",
  ["scheduler/numpy.py"], [("name parsing and pairing", "NumpyFlowFieldScheduler.get_next_slice, __init__")], ["get_batch"])
p("C07", "Episode lanes follow consecutive frames of one sequence",
  "In an episodic scheduler, within an episode lane i of the t-th batch is the frame s_i+t of one fixed leaf directory d_i (one without subdirectories), the frames of a directory being its .mat files sorted by name, for every lane and time step. Every start that leaves room for a full episode can be drawn and no other. The episodes drawn are a function of the key, the files and the number of episodes drawn before, whether or not the base scheduler shuffles, and independent of the process; a new key is used for every episode. A directory with fewer frames than an episode is an error.",
  ["inputs", "histories"], "all directory layouts, batch sizes, episode lengths, keys, repeated starts, randomized base schedulers",
  "Tests sample few draws; lanes that coincide and randomizing base schedulers are not exercised.",
  [SE, "utils.py", SB], [("interleaving", "EpisodicFlowFieldScheduler._sample_new_episodes"), ("starts", "_calculate_starts"), ("leaf directories", "discover_leaf_dirs")], ["get_batch", "file_list"])
p("C08", "Episodes last exactly their length",
  "An episodic scheduler serves exactly episode_length batches per episode and then raises EpisodeEnd, without consuming data, until a new episode is started. steps_remaining is always episode_length minus the batches served in this episode; next_episode and reset start new episodes at step 0 with all steps remaining, at any point. Requests of another batch size are rejected without advancing. Flow-field shape and file list are those of the wrapped scheduler.",
  ["histories"], "all sequences of get_batch / next_episode / reset / failed requests", "Tests follow one or two call sequences.",
  [SE], [("step counter", "EpisodicFlowFieldScheduler.get_batch, reset_episode, next_episode")], ["get_batch", "steps_remaining"])
p("C09", "Prefetching is transparent",
  "A consumer of a prefetching scheduler receives exactly the batches that the wrapped scheduler produces, in order, none lost, duplicated or altered, and then StopIteration, for every buffer size and relative speed of producer and consumer (within the timeouts). A request of another batch size is rejected. Flow-field shape and file list are those of the wrapped scheduler.",
  ["schedules", "inputs"], "all interleavings of producer and consumer, all buffer sizes and stream lengths",
  "Tests run a few timings; the end-of-stream path with a full buffer was only exercised without checking what was dropped.",
  [SP], [("worker loop and end-of-stream signal", "PrefetchingFlowFieldScheduler._worker"), ("get_batch", "PrefetchingFlowFieldScheduler.get_batch")], ["get_batch"])
p("C10", "Prefetching keeps episodes aligned",
  "Over an episodic scheduler, prefetching serves exactly episode_length batches of one episode, raising EpisodeEnd until next_episode is called. After next_episode, called at any step, the next batch is the first of the following episode, never a leftover of the abandoned one; a new episode starts as soon as the previous one has been produced. steps_remaining counts the batches served to the consumer, not those prefetched. (Before the first batch of all, next_episode only starts the prefetching of the first episode. As long as the wrapped scheduler delivers within the timeouts.)",
  ["histories", "schedules"], "all points at which next_episode is called, all buffer sizes, any number of episodes",
  "Tests call next_episode at one or two steps with one buffer size.",
  [SP], [("discarding the rest of the episode", "PrefetchingFlowFieldScheduler.next_episode"), ("EpisodeEnd handling", "_worker, get_batch")], ["get_batch", "next_episode", "steps_remaining"])
p("C11", "Prefetching can be reset and shut down at any time",
  "reset, at any point, returns the prefetching scheduler to the state of a new one over the reset wrapped scheduler: no batch prefetched before is served after it, and all counters start afresh. shutdown and reset stop the background thread even when it is blocked on a full buffer, are idempotent, and are safe before the thread was started (a wrapped scheduler that takes longer than the join timeout for a batch aside); no thread is started before the first batch or episode is requested.",
  ["schedules", "histories"], "all buffer fill levels and thread states at the time of the call", "Tests check that the calls return, in a few states.",
  [SP], [("stop event, slot release, join", "PrefetchingFlowFieldScheduler.reset, shutdown")], ["reset", "shutdown", "is_running"])
p("C12", "Samplers flag and enforce the end of an episode",
  "Over an episodic scheduler every batch carries a boolean done flag per sample, all true exactly on the last step of the episode and all false before, and asking for a batch when no step remains raises EpisodeEnd without touching the scheduler's data. Over a non-episodic scheduler (a prefetching wrapper, which always offers next_episode, aside) done is absent and next_episode is an error. reset resets the wrapped scheduler exactly when asked to, and shutdown always shuts it down.",
  ["histories"], "all sequences of next / next_episode / reset", "Tests check short fixed runs.",
  ["sampler/base.py"], [("done flag", "Sampler._make_done, __next__")], ["__next__", "reset", "next_episode"])
p("C13", "Real samples are passed through unchanged",
  "A real-image sampler returns, for each batch, the scheduler's images1, images2 and flow fields converted to float32 with no other change, in these roles, together with the scheduler's mask and files unchanged, and no generation parameters. It refuses schedulers that do not provide images, seeing through any nesting of episodic and prefetching wrappers.",
  ["inputs"], "all batches and wrapper nestings", "Tests compare one batch of one scheduler.",
  ["sampler/real.py"], [("conversion", "RealImageSampler._get_next")], ["__next__"])
p("C14", "Synthetic batches: flow refresh cadence and pairing",
  "A synthetic sampler fetches one batch of flow_fields_per_batch flow fields, uses it for exactly batches_per_flow_batch consecutive batches (one, when directly over an episodic scheduler), then fetches the next; no fetched batch is skipped or reused later. In each batch the reported flow fields, mask and files all belong to the same fetched batch from which the images were generated, and image pair k is generated from the flow field reported at position k. reset forgets the current flow fields and restarts the random sequence from the seed.",
  ["histories", "configurations"], "all cadences, batch sizes, numbers of flow fields and call histories",
  "Tests check a few cadences; pairing of image k with flow k is not observable in them.",
  ["sampler/synthetic.py", "utils.py", "data_generate.py"], [("refresh", "SyntheticImageSampler._get_next"), ("tiling", "flow_field_adapter"), ("i % n", "generate_images_from_flow")], ["__next__", "reset"])
p("C15", "Geometry: the image always lies inside the seeded region",
  "For every accepted configuration the region seeded with particles contains the whole image at the computed offset, and extends beyond it on each side by at least the distance travelled at the configured speed bounds in one time step, to within one pixel of rounding. Where particles may be hidden in either image, or densities vary between images, it also extends above and to the left of the image by at least the rendering patch of the largest configured particle, to within a pixel. The image shows the part of the flow field at the requested img_offset, to within a pixel; where the region starts outside the flow field the field is padded, and the image is there to within a pixel and a step of the flow field grid. Configurations whose image is too close to the top or left edge, or for which the flow field is too small, are rejected.",
  ["configurations"], "all image shapes, offsets, resolutions, speed bounds, time steps, flow field sizes, particle sizes",
  "Tests use a few round numbers, for which truncation is harmless.",
  ["sampler/synthetic.py"], [("position bounds, offsets and padding", "SyntheticImageSampler.__init__")], ["images1.shape", "img_offset", "position_bounds"])
p("C16", "Randomness: reproducible, and never reused",
  "The whole sequence of batches is a function of the seed, the configuration and the flow fields: equal seeds give equal sequences, also after a reset. Every random quantity (particle positions, visibility in each image, each particle parameter and its variation, noise of each image, range choices, densities) of every image of every batch, on every device, is drawn with its own random key: no key is used twice, and different seeds give different keys.",
  ["histories", "inputs"], "all seeds, batch indices, image indices, device counts",
  "Tests compare two runs of one batch; key reuse shows up as correlated data that no assertion looks at.",
  ["data_generate.py", "generate.py", "sampler/synthetic.py"], [("fold_in per image, split per quantity", "generate_images_from_flow"), ("split per batch and device", "SyntheticImageSampler._get_next")], ["images1", "images2", "params"])
p("C17", "Generated images: shape, pixel range, mask and noise",
  "Generated image pairs have shape (batch_size, height, width), finite values in [0, 255], and are zero wherever the optional mask is zero (histogram matching aside), for every flow field, key and noise setting. Noise is the sum of uniform noise in [0, noise_uniform), the configured mean and a Gaussian of the configured standard deviation, independent per pixel and per image; with all three zero the pixels are the clipped rendering.",
  ["inputs", "configurations"], "all keys, flows, specifications and masks", "Tests sample a few seeds and settings.",
  ["data_generate.py", "generate.py"], [("clip, mask", "generate_images_from_flow, add_noise_to_image")], ["images1", "images2"])
p("C18", "Particles obey the specification",
  "For every image pair the reported seeding density lies in its range and exactly floor(area * density) particles of the seeded region are active, at positions within it; for each property one of the configured ranges is chosen uniformly and reported, and every particle's diameters, intensity and correlation lie in the reported range in both images. Both images show the same active particles with the same first-image parameters up to zero-mean variations of the configured variance; a particle is hidden in image 1 and 2 independently with probability p_hide_img1 and p_hide_img2, so that zero hides none and one hides all.",
  ["inputs", "configurations"], "all keys, ranges, variances, probabilities and densities", "Tests check shapes and a few averages.",
  ["data_generate.py"], [("parameter sampling", "generate_images_from_flow")], ["params", "images1", "images2"])
p("C19", "Image 2 shows image 1's particles moved by the flow",
  "Each particle of the second image is the same particle of the first image moved by the time step times the flow, interpolated bilinearly at the particle's own position, x velocities moving columns and y velocities rows, with the flow field covering the seeded region exactly. In a batch the flow used for image i is the field i modulo the number of fields. In pixels the displacement equals velocity * resolution * dt when the seeded region and the flow field cover the same physical area.",
  ["inputs"], "all flow fields (non-uniform, any shape), positions, resolutions and time steps", "Tests use uniform or tiny flows, where axes and scales can be swapped unnoticed.",
  ["data_generate.py", "apply.py"], [("scaling to grid steps and back", "generate_images_from_flow"), ("advection", "apply_flow_to_particles")], ["images2"])
p("C20", "Reported flow fields: units, window and order",
  "The reported flow field has shape (batch_size, new_height, new_width, 2); entry k is computed from the input field k modulo the number of fields, by bilinear interpolation on an evenly spaced grid over the image's window of the (edge-padded) field, separately for each component. In 'pixels' both components are multiplied by resolution * dt, otherwise they are left in measure units. The second result is the field over the whole seeded region, one per input field, never rescaled.",
  ["inputs", "configurations"], "all field shapes, windows, paddings, batch sizes, resolutions", "Tests check shapes and constant fields.",
  ["utils.py"], [("window and tiling", "flow_field_adapter")], ["flow_fields"])
p("C21", "Rendering is the sum of the particles' Gaussians",
  "The rendered image is the sum over particles of a correlated Gaussian with the particle's own diameters (sigma = diameter/2), intensity and correlation, centred at its position (clamped so that its footprint fits), evaluated on the square of pixels within 3/2 of the maximum diameter around it; pixels outside are unaffected, no deposit falls outside the image, and overlapping particles add up. Values are clipped to [0, 255] exactly when requested.",
  ["inputs"], "all positions, sizes, particle counts and image shapes that hold one footprint", "Tests render a handful of particles.",
  ["generate.py"], [("scatter-add", "img_gen_from_data"), ("kernel", "gaussian_2d_correlated")], ["img_gen_from_data"])
p("C22", "Interpolation is exact, bounded and clamped",
  "Bilinear interpolation returns the grid value at integer coordinates, is linear in each coordinate between neighbours, never leaves the range of the four surrounding values, reproduces affine images exactly inside, and outside the image returns the value at the nearest border point. Trilinear interpolation satisfies the same on volumes for points inside.",
  ["inputs"], "all arrays and coordinates", "Tests check a few points.",
  ["utils.py"], [("clamped neighbours and weights", "bilinear_interpolate, trilinear_interpolate")], ["bilinear_interpolate", "trilinear_interpolate"])
p("C23", "Particle advection in 2D and 3D",
  "Advecting particles adds to each coordinate dt times the resolution of its axis times the velocity component of that axis interpolated at the particle's own position, in 2D (y, x) and 3D (z, y, x) alike. Each particle moves independently of the others, the order and number of particles are kept, and a zero field or time step moves nothing.",
  ["inputs"], "all positions, fields and resolutions", "Tests use a few symmetric fields.",
  ["apply.py"], [("per-particle update", "apply_flow_to_particles")], ["apply_flow_to_particles"])
p("C24", "Image warping: forward splats, backward samples",
  "Forward warping deposits each pixel's value with bilinear weights at its displaced position (x + u dt, y + v dt): intensity is conserved for displacements that stay inside, only the shares falling outside are lost, and contributions add up. Backward warping samples the image at (x - u dt, y - v dt) with clamped bilinear interpolation. Warping with a callable equals warping with the array of its values flow(t, x, y) at the pixels, in both directions, and zero flow is the identity.",
  ["inputs"], "all images (square or not), fields and time steps", "Tests use fixed example flows.",
  ["apply.py"], [("deposit", "apply_flow_to_image_forward"), ("sampling", "apply_flow_to_image_backward"), ("grid evaluation", "apply_flow_to_image_callable")], ["apply_flow_to_image_*"])
p("C25", "Histogram matching is the monotone CDF mapping",
  "Matching maps every pixel to the smallest grey level at which the normalised cumulative target histogram reaches the source's cumulative frequency at the pixel's level; output has the source's shape and dtype and integer levels in 0..255. The mapping is monotone, equal levels map to equal levels, and it depends on the pixels' values only, not on their positions.",
  ["inputs"], "all images and histograms", "Tests match a few images.",
  ["utils.py"], [("CDF inversion", "match_histogram")], ["match_histogram"])
p("C26", "Invalid generation specifications are rejected",
  "An image generation specification can be constructed exactly when all its documented constraints hold: positive integer batch size and image shape, non-negative offsets, ordered non-negative density range, probabilities in [0, 1], non-empty lists of ordered ranges (positive diameters and intensities, correlations strictly inside (-1, 1)), non-negative variances and noise, positive time step. Updating some fields keeps all the others and validates the result in the same way.",
  ["inputs"], "all field values, including boundaries", "Tests try some invalid values per field, one at a time.",
  ["types.py"], [("validation", "ImageGenerationSpecification.__post_init__, update")], ["ImageGenerationSpecification"])
p("C27", "A configuration yields the sampler it describes",
  "make builds the scheduler of the requested format with the configured files, order, looping, image loading and shape, and a key derived from the seed; wraps it in an episodic scheduler exactly if episode_length > 0 and a prefetching one, outermost, exactly if buffer_size > 0, sized so that every batch request of the sampler is accepted; and returns a real sampler exactly if images are included, otherwise a synthetic one. Missing or ill-typed required entries are rejected before any data is served.",
  ["configurations"], "all combinations of options", "Tests check combinations one at a time with stand-ins that accept anything.",
  ["make.py", "scheduler/hdf5.py", "scheduler/mat.py", "scheduler/numpy.py"], [("wiring", "make"), ("from_config", "each scheduler")], ["make"])
p("C28", "The sanity tool computes true speed bounds and keeps configs",
  "The speed bounds computed for a list of files are the exact minimum and maximum of each velocity component over all entries of all files, x from component 0 and y from component 1. Writing updated values into a configuration file changes those entries only: reading it back yields every other entry, of whatever YAML type, as it was. Missing speeds are detected exactly when absent or not a number. Unless the user stops it, running the tool ends normally exactly if the configuration that it leaves in the file yields a scheduler and a sampler.",
  ["inputs", "configurations"], "all files and configurations", "Tests use a single configuration and random data without known extremes.",
  ["sanity.py"], [("running extremes", "calculate_min_and_max_speeds"), ("rewriting", "update_config_file"), ("the tool", "main")], ["update_config_file", "calculate_min_and_max_speeds", "main"])
p("C29", "Batch containers survive transformations and updates",
  "Flattening and unflattening a batch or its generation parameters as a JAX pytree gives back every field in its place, including absent ones. Updating a batch or scheduler record replaces exactly the named fields, keeps all others, and leaves the original untouched.",
  ["inputs"], "all field values and subsets of updated fields", "Tests round-trip a few instances.",
  ["types.py"], [("tree_flatten / tree_unflatten, update", "ImageGenerationParameters, SynthpixBatch, SchedulerData")], ["tree_flatten", "update"])
p("C30", "Sharding over devices keeps the batch whole and paired",
  "With any number of devices the delivered batch has the requested size rounded up to the next multiple of the device count, each device contributing an equal contiguous part generated with a different random key. Images, reported flow fields and parameters at one position come from the same device and flow field. Only the requested valid devices are used, and requesting none that exists is an error.",
  ["configurations"], "all device counts, batch sizes and device id lists", "Tests check that the batch size is divisible.",
  ["sampler/synthetic.py"], [("mesh and shard_map", "SyntheticImageSampler.__init__, _get_next")], ["__next__"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
