A = "src/auv_nav/"
EX = "Exhaustive bounded exploration of the real code: "

prop("C01", "Navigation outputs do not depend on thread scheduling",
  "Processing a parsed dive writes the same set of output files with the same contents whatever the relative speed of the threads that write them, and it never fails because of that order. This holds for every combination of dead reckoning, extended Kalman filter, pose-information output and camera set.",
  ["schedules", "configurations"], "every interleaving, up to a preemption bound, of the main thread and the csv/covariance/pose writer threads, for each processing configuration",
  "A test runs one schedule, which the operating system nearly always resolves the same way; the harmful order needs a writer still working when the main thread edits the same list.",
  [A + "process.py", A + "tools/csv_tools.py"],
  [("writer threads over shared measurement lists", "process.py: threading.Thread(target=write_csv|write_sidescan_csv|spp_csv ...)"), ("csv folder creation", "csv_tools.py: write_csv")],
  EX + "stateless model checking of the real multi-threaded process() under a controlled scheduler (bounded deviations from two base policies), final file tree compared across all schedules",
  "all schedules up to the stated number of preemptions at thread, file and list-line granularity")

prop("C02", "Parsing does not depend on scheduling or on earlier parses",
  "Parsing a dive gives the same standardised navigation file whatever order the per-sensor parsers run or interleave in, and whatever other dives the same process parsed before. Parsing the same dive twice yields the same measurements.",
  ["schedules", "histories"], "every interleaving, up to a preemption bound, of the parser workers; every sequence of dives up to a bounded length in one process",
  "Tests call one parser once in a fresh process, so shared or left-over state between parsers, threads and dives is never exercised.",
  [A + "parse.py", A + "parsers/parse_acfr_images.py", A + "parsers/parse_biocam_images.py", A + "parsers/parse_phins.py", A + "parsers/parse_ntnu_stereo.py"],
  [("parser pool", "parse.py: parse_single ThreadPool.apply_async"), ("module-level timestamp lists", "parsers/parse_*_images.py")],
  EX + "controlled replacement of the parser pool enumerating all worker completion orders and line-level interleavings, plus all parse histories up to a bounded depth; oracle: the result of a sequential parse in a fresh process",
  "bounded preemptions and history depth")

prop("C03", "The parsed navigation file is chronological and loses nothing",
  "The standardised navigation file starts with the origin record and then holds every measurement produced by the parsers exactly once, ordered by time as a number, whatever the order, duplication or magnitude of the timestamps. Merging several dives keeps every measurement of every dive, in global time order, with image file names still pointing at the dive they came from, and dives with different origins are never merged silently.",
  ["inputs", "histories"], "all short sequences of records over a timestamp alphabet spanning sign, magnitude and ties; all short lists of dives",
  "Order errors appear only for particular digit counts, ties or merges that sample data does not contain.",
  [A + "parsers/parse_interlacer.py", A + "parse.py"],
  [("time ordering", "parsers/parse_interlacer.py: parse_interlacer"), ("multi-dive merge", "parse.py: merge_json_files")],
  EX + "all record sequences up to a length over a timestamp alphabet, all merges of up to three dives, against a sorting reference",
  "bounded sequence length and alphabet")

prop("C04", "Interpolated values lie on the segment between the neighbouring samples",
  "A value interpolated at a time between two samples is their time-weighted average, equals the sample itself at a sample time, and headings are averaged across the 0/360 wrap along the shorter arc. While processing a dive, camera and sensor poses requested at times outside the navigation data are dropped, never extrapolated, and those inside are all kept in order.",
  ["inputs", "histories"], "all placements of query times relative to short lists of navigation samples (before, at, between, after), and all heading pairs on a grid crossing the wrap",
  "Boundary placements (first interval, last interval, exactly at a sample, wrap) combine; tests sample a few interior points.",
  [A + "tools/interpolate.py", A + "process.py"],
  [("generic interpolation", "interpolate.py: interpolate"), ("sensor list interpolation", "interpolate.py: interpolate_sensor_list"), ("camera interpolation", "interpolate.py: interpolate_camera, interpolate_dvl, interpolate_usbl, interpolate_depth, interpolate_altitude")],
  EX + "all placements of query times over sample lists up to a length, heading pairs on a full grid, against an independent interpolation reference",
  "bounded list lengths and value grids")

prop("C05", "Frame and geodetic conversions are rigid, consistent and invertible",
  "Converting a vector from the body frame to the inertial frame preserves its length, converting back returns the original, and both agree with the same yaw-pitch-roll convention as the homogeneous transforms. Converting an offset in metres to latitude and longitude and back returns the offset, anywhere on Earth within the scale of a dive, with north increasing latitude and east increasing longitude.",
  ["inputs"], "all attitudes on a full angular grid including the principal axes, all basis vectors, all reference positions on a latitude/longitude grid and all offsets on a signed metric grid",
  "A wrong sign or term in one matrix element cancels for the level attitudes and positive hemispheres that tests use.",
  [A + "tools/body_to_inertial.py", A + "tools/inertial_to_body.py", A + "tools/latlon_wgs84.py", A + "tools/transformations.py"],
  [("rotation", "body_to_inertial, inertial_to_body"), ("geodesy", "latlon_wgs84: latlon_to_metres, metres_to_latlon"), ("homogeneous transforms", "transformations.py")],
  EX + "complete enumeration of an attitude x vector grid and a position x offset grid against independent rotation-matrix and ellipsoid references",
  "finite grids; grid points include every sign and quadrant combination")

prop("C06", "Dead-reckoned poses are the integral of the measured motion",
  "For every parsed dive, each published vehicle pose equals the trapezoidal integral of the heading-rotated body velocities from the start, each camera pose is the vehicle pose at the shutter time plus its rotated mounting offset, and depth and altitude follow the respective sensors. Latitude and longitude in every output agree with northings and eastings about the mission origin, and no pose is published for a time outside the navigation data.",
  ["inputs", "configurations"], "all short dives built from a small alphabet of velocities, headings, rates and sensor phase offsets, for each vehicle mounting",
  "Integration, interpolation, lever arms and output writing interact; the repository has no end-to-end test of processing.",
  [A + "process.py", A + "localisation/dead_reckoning.py", A + "sensors.py", A + "tools/interpolate.py"],
  [("integration", "dead_reckoning.py: dead_reckoning"), ("pose construction", "process.py; sensors.py: Camera.fromSyncedBodyVelocity")],
  EX + "all short dives over a motion alphabet run through the real process(), csv outputs compared with an independent integrator",
  "bounded dive length and alphabet")

prop("C07", "The Kalman filter fuses only valid data and keeps a valid covariance",
  "For every sequence of measurements the filtered and smoothed estimates are those of the extended Kalman filter and Rauch-Tung-Striebel equations for a body with constant body velocities and rates; every covariance stays symmetric and positive semi-definite, a value that is not finite or a measurement beyond the gating distance leaves the state unchanged, and an accepted measurement never increases the variance of what it observes. Headings stay consistent across the wrap, sensor lever arms are applied with the current attitude, and one state is published per measurement or image time, in time order, only within the navigation data; camera poses are the state at the shutter time plus the rotated mounting offset.",
  ["histories", "inputs", "configurations"], "all sequences up to a bounded depth over an alphabet of predict and update operations, including NaN, outlier, wrap and zero-time-step operations",
  "Divergence and asymmetry need specific operation sequences; unit tests run one step from one state.",
  [A + "localisation/ekf.py"],
  [("update and gating", "ekf.py: EkfImpl.measurement_update / ekf_update"), ("prediction and smoother", "ekf.py: EkfImpl.predict, smooth")],
  EX + "explicit exploration of all filter operation sequences up to a depth on the real filter, invariants checked in every state, textbook Kalman update as oracle",
  "bounded depth")

prop("C08", "Position-fix filtering removes exactly the inconsistent fixes",
  "Every acoustic position fix kept by the filter was in the input, unaltered and in the same order. A fix is kept exactly when it lies at least a second inside the depth record, its depth agrees with the interpolated vehicle depth within the configured number of standard deviations, and it is reachable at the configured speed from its two neighbours on either side; the mission can switch the depth and distance tests off separately. Dead reckoning is then shifted by the mean difference between the kept fixes taken during it and the dead-reckoned positions at their times.",
  ["inputs", "histories"], "all short sequences of fixes over an alphabet of consistent, outlying, early, late and depth-inconsistent fixes",
  "Outcomes depend on which neighbour is bad and on where in the list it is; tests have none.",
  [A + "localisation/usbl_filter.py", A + "localisation/usbl_offset.py"],
  [("filter", "usbl_filter.py: usbl_filter"), ("offset", "usbl_offset.py: usbl_offset")],
  EX + "all fix sequences up to a length over an outlier alphabet against a reference filter",
  "bounded length and alphabet")

prop("C09", "Timestamps are absolute: independent of host time zone and correct offset",
  "A measurement's time in the parsed output is the time in the raw file, shifted by the configured mission time zone and time offset, as seconds since 1970 UTC, whatever time zone the host runs in and across day, month, year and leap-year boundaries, with fractional seconds kept to the format's resolution. This holds for PHINS, AE2000, USBL dump, GAPS, NMEA, EIVA Navipac, NTNU, KOYO21 ROV, tide, ACFR, SeaXerocks and BioCam files and for times taken from image file names or timestamp tables; formats defined in UTC ignore the mission zone.",
  ["inputs", "configurations"], "all raw timestamps on a grid of calendar boundaries and fractions, for each parser, mission time zone and host time zone",
  "Tests run in one host zone and on one date; conversions differ only in others.",
  [A + "tools/time_conversions.py", A + "parsers/", "src/oplab/filename_to_date.py"],
  [("calendar to epoch", "time_conversions.py: date_time_to_epoch, read_timezone"), ("file-name dates", "filename_to_date.py: FilenameToDate")],
  EX + "complete enumeration of calendar boundary instants x fractions x mission zones x host zones through the real parsers against calendar arithmetic",
  "finite instant and zone sets")

prop("C10", "Depths are tide corrected exactly when tide data cover them",
  "When tide data are configured every depth measurement and every acoustic fix depth inside the tide record is reduced by the tide height interpolated at its time, including at the record's first and last samples and whatever order and files the tide samples come in, and no depth is altered otherwise. No other measurement changes.",
  ["inputs", "configurations"], "all placements of depth times relative to short tide records",
  "Off-by-one at either end of the tide record is invisible with long records.",
  [A + "parse.py", A + "parsers/parse_tide_CTI.py"],
  [("tide correction", "parse.py: parse_single")],
  EX + "all placements of depth times in tide records up to a length through the real parser pipeline against an interpolation reference",
  "bounded list lengths")

prop("C11", "Corrupted or incomplete sentences never become measurements",
  "A PHINS navigation sentence that is truncated, altered, joined or broken, fails its checksum or lacks fields contributes nothing to the parsed output, and does not disturb the measurements carried by the sentences before and after it; in particular values of different epochs are never combined in one measurement and an epoch without a valid time yields no time-dependent measurement. Every intact sentence is parsed to the values it carries.",
  ["inputs", "fault_sequences"], "every single-character corruption, truncation and deletion of every line in a short log of every sentence type",
  "There are thousands of single-fault variants; tests use clean samples.",
  [A + "parsers/parse_phins.py"],
  [("checksum and framing", "parse_phins.py: PhinsParser")],
  EX + "every single-fault variant of a reference sensor log through the real parser; output must equal the clean output or the clean output without the affected record",
  "single faults on a fixed log containing each sentence type")

prop("C12", "Existing results are never overwritten unless forced; raw data never change",
  "Whatever the sequence of parse (single or merged dives), process and ACFR conversion commands: without the force option a step leaves every existing result byte-identical and, where it has no results yet, writes them; with the force option every result it writes has the contents of a first run, and results of other steps stay as they are. No step ever creates, modifies or deletes a raw data file or changes an existing configuration file. (Time-stamped log files are not results.)",
  ["histories", "configurations"], "all sequences up to a bounded depth of parse, merge, process, conversion with and without force, edits of inputs and configuration, and hand edits of results",
  "The outcome depends on the history of earlier steps; tests run single functions on fresh folders.",
  [A + "parse.py", A + "process.py", A + "auv_nav.py", A + "convert.py", "src/oplab/folder_structure.py"],
  [("existence checks", "parse.py: parse, parse_single, check_output_files_exist; process.py: process; convert.py: acfr_to_oplab, oplab_to_acfr")],
  EX + "all command histories up to a depth on the real command-line entry points, file tree hashed after each step",
  "bounded depth")

prop("C13", "Raw, processed and config folders map one-to-one",
  "For every path with exactly one folder called raw, processed or configuration, the raw, processed and configuration counterparts differ only in that one path component, and the mappings are mutually inverse and idempotent, also for relative paths, '..' and links; where several folders carry such a name at most one component changes. Looking a counterpart up creates nothing, and a path outside any dataset is refused. A dive counts as parsed exactly when its nav/nav_standard.json exists, listing a folder gives every file once, and copying a file changes nothing but the target.",
  ["inputs"], "all paths up to a bounded depth over a component alphabet that includes raw, processed and config and names containing them",
  "The failing paths contain the marker words in unusual positions.",
  ["src/oplab/folder_structure.py"],
  [("mapping", "folder_structure.py: get_raw_folder, get_processed_folder, get_config_folder, change_subfolder, valid_dive")],
  EX + "every path up to a depth over a component alphabet against a path-rewriting reference",
  "bounded depth")

prop("C14", "Mission and vehicle descriptions survive a load and save",
  "Loading a mission or vehicle description (or assembling one in memory) and saving it preserves every configured field of every sensor, camera, payload and frame, and loading the saved file gives an equal description, also for every shipped default. Old-format descriptions keep their meaning, heading offset included, and a sensor that is not configured stays unconfigured. Unknown time zones and sensors, cameras or payloads in frames the vehicle lacks are refused.",
  ["inputs", "configurations"], "all combinations of present and absent sensors and fields up to a bounded size, over the supported formats",
  "Field/sensor combinations are too many to test; a dropped field only matters for missions that use it.",
  [ "src/oplab/mission.py", "src/oplab/vehicle.py"],
  [("yaml load/save", "mission.py: Mission.load/write; vehicle.py: Vehicle.load/write")],
  EX + "all sensor subsets and per-sensor field subsets, load-save-load on the real classes against the source dictionary",
  "bounded subset size")

prop("C15", "Numbers written to navigation csv files are the numbers computed",
  "Every navigation csv has one row per item in order (also for a single item), columns that match its header, and values that read back equal to the computed ones; the same holds for the covariance csv of cameras and for the side-scan and SLAM++ pose-information text files. Nothing is written when csv output is off or there are no items, and an older file is replaced as a whole. Reading a pose csv back, whole or between two images, gives the poses and covariances that were written.",
  ["inputs"], "all short lists of items of every measurement type over a value alphabet of signs, magnitudes and missing values",
  "Column misalignments show only when neighbouring values differ.",
  [A + "sensors.py", A + "tools/csv_tools.py"],
  [("csv rows", "sensors.py: *.get_csv_header, *.to_csv_row; csv_tools.py: write_csv, load_states")],
  EX + "all short item lists with pairwise distinct values in every field, written and re-read by the real code",
  "bounded length and alphabet")

prop("C16", "Conversions to and from ACFR formats preserve measurements",
  "Writing vehicle and stereo poses to ACFR files gives one line per pose in order, with the origin and with angles in radians and in the frame the file format defines; reading such files, also ones made by other software, gives back the same times, positions, attitudes and image names. Laser images get the pose interpolated at their time. The combined raw file holds each attitude, depth, position fix and non-laser image once, and each body velocity together with the latest altitude and attitude not yet used. Converting alters neither the poses it is given nor other files, and existing results are not overwritten unless forced.",
  ["inputs", "histories"], "all short pose lists over an attitude and position alphabet",
  "A unit or sign slip cancels for zero attitudes.",
  [A + "parsers/acfr_stereo_pose.py", A + "parsers/acfr_vehicle_pose.py", A + "parsers/acfr_combined_raw.py", A + "convert.py"],
  [("writers and parsers", "acfr_*.py, convert.py")],
  EX + "all short pose lists over an alphabet through the real writer and parser", "bounded length and alphabet")

prop("C17", "Image correction uses exactly the selected images, each with its own distance",
  "The images that correct_images corrects (process), or computes correction parameters from (parse), are exactly those listed in the navigation csv of the requested camera (EKF results if there are any, dead reckoning otherwise) that exist, have an altitude strictly between the configured bounds of that step, are in the user's image list if one is given, and have a depth map if depth maps are the distance metric. Every image is developed with its own altitude or depth map, and filelist.csv gives it its own pose. Images of several dives are pooled and every dive gets the parameters; fewer than three images are refused. Manual balance develops every image of the camera, with or without navigation. Lens distortion is removed with the calibration of that camera if this is enabled and there is one. Raw data never change, and existing results are only overwritten if forced.",
  ["inputs", "configurations"], "all short image lists over altitudes at, inside and outside the bounds, missing altitudes and missing files, for every distance metric, user list, navigation source, command and number of dives",
  "Index misalignment after filtering appears only for particular in/out patterns.",
  ["src/correct_images/corrector.py", "src/correct_images/correct_images.py", "src/correct_images/tools/file_handlers.py"],
  [("selection", "corrector.py: Corrector.get_imagelist, get_altitude_and_depth_maps, set_path; tools/file_handlers.py: trim_csv_files, get_imagename_list"), ("development", "corrector.py: Corrector.process_correction, process_image"), ("commands", "correct_images.py: call_parse, call_process, call_correct")],
  EX + "all in/out patterns up to a length x metrics x lists x dives through the real commands on real files, against a filter reference and an independent development of every pixel",
  "bounded list length; images of 4x5 pixels")

prop("C18", "Correction statistics are those of exactly the images they describe",
  "The per-pixel mean and standard deviation of corrected images (without saturated pixels, i.e. above 0.95) and of raw images, the mean of depth maps (without zeroes), and the mean, median and trimmed mean of a distance bin equal the statistic of the whole set computed at once, whatever the order of the images and the values of the pixels; standard deviations that are divided by are never zero. Every image contributes to its own 0.1 m distance bin only, bins of fewer than ten images are not used, and the bin distance is the mean distance of its images. An attenuation curve fitted to measurements that follow one reproduces them, and unusable measurements (zero, negative, not finite) do not influence it; gains level images to the mean distance of the set.",
  ["inputs", "histories"], "all sequences up to length 5 (6) of pixel values over an alphabet of dark, ordinary and saturated values; all bin occupancies around the threshold; a grid of attenuation curves with unusable entries at any position",
  "Order dependence and the effect of saturated or missing pixels need all sequences; tests compare one random set within a tolerance of 2.",
  ["src/correct_images/tools/numerical.py", "src/correct_images/tools/curve_fitting.py", "src/correct_images/corrections/attenuation.py", "src/correct_images/corrector.py"],
  [("running statistics", "numerical.py: RunningMeanStd, running_mean_std, median_array, mean_std_array, image_mean_std_trimmed"), ("curve", "curve_fitting.py: curve_fitting; corrections/attenuation.py"), ("bins", "corrector.py: Corrector.generate_attenuation_correction_parameters, compute_distance_bin")],
  EX + "all value sequences up to a length laid out as the pixels of images through the real statistics, and all bin occupancies through the parse command, against batch statistics computed independently",
  "bounded sequence length, value alphabet and image size; the (random, undocumented) ransac_mean smoothing is not covered")

prop("C19", "Images are decoded, coloured, balanced and scaled pixel by pixel, within the output range",
  "Reading a raw image puts every sample at its pixel and channel for every supported container and bit depth (8 to 16 bit files, packed xviii raw files) with values in [0, 1). A scene of one colour keeps that colour through every Bayer pattern and through rgb, bgr and grayscale cameras, in the order red, green, blue of the output file. Brightness and contrast bring the given mean and standard deviation to the requested ones, manual balance applies the colour matrix after the subtractors to every pixel, gamma keeps the order of brightness, and nothing ever leaves the output range or wraps around. An output file that cannot be read back is written again. Rescaling gives an image the requested resolution according to its own altitude and focal length, or keeps its size if pixels are maintained, without moving its content.",
  ["inputs", "configurations", "fault_sequences"], "all sample values at all bit depths, all byte values at all positions of the packed format, all patterns and camera types with colours over an alphabet, all adjustment targets on a grid",
  "Bit packing, wrap-around and channel order depend on individual values, positions and camera types.",
  ["src/correct_images/loaders/", "src/correct_images/corrections/", "src/correct_images/corrector.py", "src/correct_images/tools/file_handlers.py"],
  [("decoding", "loaders/default.py, loaders/xviii.py, loaders/loader.py"), ("adjustments", "corrections/debayer.py, pixel_stat.py, manual_balance.py, gamma.py"), ("development", "corrector.py: Corrector.process_image; tools/file_handlers.py: write_output_image"), ("rescaling", "corrections/rescale.py")],
  EX + "all sample values, byte positions, patterns, camera types and adjustment targets of finite alphabets through the real code and commands, against an independent decoder and colour model",
  "finite value alphabets; image sizes up to 256x256 (1280x1024 for raw files); rosbag images are not covered")

prop("C20", "Laser planes and rays satisfy their geometric definitions",
  "A plane is the same whatever the common scale of its coefficients: its normal has unit length, distances to it are metric, and a ray meets it in a point that lies on the ray and on the plane, without the ray being altered. A plane fitted to points of a plane contains them in whatever order they are given, and the inliers reported are exactly the points within the tolerance of the returned plane. A plane through three points contains them, a plane built from a point and angles contains the point and has these angles. Stereo triangulation of the two projections of a point gives back the point. Laser peaks of the two images are matched by column whatever peaks are missing in either image, and points behind the camera are dropped. The laser line is found in every column that shows it to within a pixel and within its own rows. A laser calibration recovers the plane of each laser whatever images are missing on either side, its uncertainty planes belong to that laser, and repeating it from the stored detections gives the same result.",
  ["inputs"], "all plane orientations, scales, point orders, missing-peak patterns and missing-image patterns on small lattices, and whole calibrations on synthetic images",
  "Degenerate orientations, orders and missing detections are many; tests use one plane.",
  ["src/auv_cal/plane_fitting.py", "src/auv_cal/laser_calibrator.py", "src/oplab/camera_system.py"],
  [("fits", "plane_fitting.py: Plane"), ("triangulation and calibration", "laser_calibrator.py: triangulate_dlt, opencv_to_ned, get_angles, build_plane, LaserCalibrator")],
  EX + "all lattice plane configurations, orders and missing-detection patterns on the real code against exact geometry; whole calibrations of rendered laser images", "finite lattices")

prop("C21", "Stereo images are paired only with their simultaneous counterpart",
  "Left and right images are paired exactly when their times differ by less than the tolerance (0.05 s), with the nearest partner, whatever images are missing or shifted on either side, including a camera without any image; each image keeps its own time and file, the pair carries the time of the first image, and laser images are reported once. This holds for the ACFR, BioCam and NTNU image parsers in both output formats and for the pairing of images in stereo and laser calibration. BioCam times follow the camera clock: one rate and offset per camera, never later than the time the image was written, the order of the images kept.",
  ["inputs"], "all sequences of up to 4 (5) moments with any images missing or shifted on either side, in several directory orders; all write-delay patterns of up to 4 (5) images",
  "Wrong pairs need a missing frame at a specific position on one side.",
  [A + "parsers/parse_acfr_images.py", A + "parsers/parse_biocam_images.py", A + "parsers/parse_ntnu_stereo.py", "src/auv_cal/laser_calibrator.py", "src/auv_cal/camera_calibrator.py"],
  [("pairing", "parse_acfr_images.py, parse_biocam_images.py, parse_ntnu_stereo.py, laser_calibrator.py: cal, camera_calibrator.py: find_common_filenames"), ("clock", "parse_biocam_images.py: correct_timestamps")],
  EX + "all drop/shift patterns of short left/right sequences through the real parsers and calibrators against a pairing reference", "bounded length")

prop("C22", "An interrupted run can always be repeated to the same result",
  "If parsing (single or merged dives), processing or the ACFR conversion is killed, fails or runs out of disk space at any file operation, running it again with the force option gives exactly the result files of an uninterrupted run, with nothing left over. Raw data and the input of the step are unchanged by every interruption. At any moment nav_standard.json is absent, the previous complete file or the new complete file in chronological order, and a generated default configuration is absent or complete; so repeating the parse or merge without force and then processing never publishes results that differ from an uninterrupted run. The stored laser detections of a laser calibration are never incomplete.",
  ["crash_points", "fault_sequences"], "every file-system operation of a parse, merge, process, conversion and detection run as crash point, as failed operation and as the start of a full disk (one per history)",
  "Crash points cannot be enumerated by hand-written tests.",
  [A + "parse.py", A + "process.py", A + "tools/csv_tools.py", "src/oplab/folder_structure.py", "src/auv_cal/laser_calibrator.py"],
  [("output writing", "parse.py: parse_single, merge_json_files; process.py: process"), ("default configuration", "folder_structure.py: get_config_folder, _copy"), ("detections", "laser_calibrator.py: get_laser_pixels")],
  EX + "fault injection at every file-system operation of the real run followed by a re-run, file tree compared with an uninterrupted run", "single crash per history")

prop("C23", "Signs, units and hemispheres are kept and uncertainties are non-negative",
  "Positions parsed from USBL dump, GAPS, NOC NMEA, EIVA and Koyo21 logs keep the hemisphere of the record and the sign of its depth in every quadrant of the globe; their metric offsets from the mission origin have the right sign and size and their uncertainty in degrees equals the one in metres. The position and heading of the ship are interpolated the short way around (GAPS). Attitude, velocity, depth and altitude of PHINS, EIVA, NTNU DVL, Koyo21 and AE2000 logs keep the signs of the format; velocities are rotated once by the mounting yaw of the DVL and the AE2000 heading is offset once by the mounting yaw of the INS. Every uncertainty is finite and never negative; the linear model gives offset + factor times the magnitude of the value; the uncertainty of a parsed position, velocity, depth, altitude or attitude is computed with the factor and offset configured for that very sensor (PHINS attitude: from the log); the uncertainties published in the csv files are never negative.",
  ["inputs", "configurations"], "all sign and hemisphere combinations of every numeric field for the listed record types, 20 (54) origins, 4 (5) mounting yaws",
  "Samples come from one hemisphere with positive values.",
  [A + "sensors.py", A + "parsers/", A + "process.py", A + "tools/latlon_wgs84.py"],
  [("measurement construction", "sensors.py: from_* methods, get_std"), ("parsers", "parsers/parse_usbl_dump.py, parse_gaps.py, parse_NOC_nmea.py, parse_eiva_navipac.py, parse_koyo21rov.py, parse_phins.py, parse_ae2000.py, parse_ntnu_dvl.py")],
  EX + "all sign/hemisphere/magnitude combinations of each record type through the real parsers against a unit-conversion reference", "finite value alphabets")

prop("C24", "Camera models and calibrations describe the cameras that took the images",
  "Undistorting and distorting a pixel are inverse and follow the radial-tangential lens model; points in front of a stereo camera project to the pixels where the cameras see them and triangulate back to themselves; camera models written to a file are read back with the same values, also downsized. Mono calibration recovers the camera also if any one view has wrong detections; stereo calibration recovers rotation and translation also if the board moved between the images of one or two pairs, and the published rotation, translation, rectification, projection, essential and fundamental matrices all describe the same rig. A complete calibration of three cameras, also of different resolution and with raw or processed images, gives all its files, the reversed pair is the inverse of the pair, repeating it without force changes nothing, with -F reuses the stored detections and with -FF uses the new images only.",
  ["inputs", "fault_sequences", "configurations"], "5x5 cameras, 4 rigs, pixel grids; any one of 14 wrong views; sets of up to two of 18 wrong pairs; histories of up to 2 (3) complete calibrations",
  "Wrong views must be at specific positions; tests use one good data set.",
  ["src/oplab/camera_models.py", "src/auv_cal/camera_calibrator.py", "src/auv_cal/calibration.py"],
  [("models", "camera_models.py: MonoCamera, StereoCamera"), ("calibration", "camera_calibrator.py: MonoCalibrator.cal_fromcorners, StereoCalibrator.cal_fromcorners; calibration.py: calibrate_mono, calibrate_stereo, Calibrator")],
  EX + "all cameras, rigs, wrong-view and wrong-pair sets on the real code against reference cameras and rendered images", "finite sets of cameras and poses")

prop("C25", "ROV conversions give every image the navigation of its own time",
  "Converting HyBIS and Koyo20 ROV logs lists every image whose time lies within the logs exactly once (Koyo20: only those, in order of time, with the path its number gives), with position, depth, altitude, roll and pitch interpolated between the two records around its own time and the heading the short way around. Hemispheres, midnight and month ends are kept; a depth or altitude missing (zero) in one record is taken from the records around it; records without a fix, empty records and records whose clock jumps back do not count; all ship logs are used but those ending in FIX. Koyo20 poses are moved from the DVL (depth: from the depth sensor) to the camera with the attitude of that image. Raw data never change, existing results are only overwritten if forced, and repeating a conversion gives the same result.",
  ["inputs", "histories"], "all heading sequences over an alphabet, dates, hemispheres, missing or odd records at every position, lever arms, file splits and orders; image times at, between and outside all records",
  "Choosing the wrong pair of records, the long way around north or a lost first record only shows for particular time patterns; there are no tests.",
  [A + "parsers/hybis.py", A + "parsers/koyo20rov.py", A + "convert.py"],
  [("HyBIS", "hybis.py: HybisParser, HyBisPos; convert.py: hybis_to_oplab"), ("Koyo20", "koyo20rov.py: RovParser, RovCam; convert.py: koyo20rov_to_oplab")],
  EX + "all short logs over an alphabet through the real conversion commands on real files, against interpolation computed independently", "bounded number of records; images within 200 m of the reference; at least one image of each Koyo20 camera within the logs; zero values in the first or last record are not covered")

prop("C26", "Processing a time span uses the measurements of that span and no others",
  "`auv_nav process` with a first and/or last time (-s, -e, in UTC) gives exactly the results of processing a dive that consists only of the measurements from the first to the last time, both included, whatever the span, the host's time zone and the date; an end that is not given is that of the dive. The results go to a folder named after the span, so spans of one dive processed one after the other neither influence nor overwrite each other, and a span is not processed again without force.",
  ["inputs", "histories"], "every pair of first and last second (given or left out) of a dive with every kind of record at, between and outside them; every ordered list of spans up to a bounded length; dates and host time zones",
  "Tests process whole dives once; a span matters at its edges, where every kind of measurement has to be cut in the same way, and after other spans.",
  [A + "process.py", A + "auv_nav.py", A + "tools/time_conversions.py"],
  [("span selection", "process.py: epoch_start_time / epoch_finish_time"), ("results folder", "process.py: json_renav_<start>_<finish>"), ("command line", "auv_nav.py: subparser_process -s/-e")],
  EX + "enumeration of all spans and histories of spans through the real command; oracle (metamorphic): the real command on the dive cut down to the span, file for file",
  "9 s of data, spans in whole seconds, up to 2 (3) spans in a row")

prop("C27", "The navigation configuration selects exactly the products it names",
  "`auv_nav process` writes exactly the navigation csv and pose-information files switched on in auv_nav.yaml for which there are data (also a single position fix, a single camera or no laser images), each with contents that do not depend on which others or which plots are switched on. An option or section left out means its default (sensor uncertainties; filter, Kalman filter, csv, pose-information and plots off; smoother on), older spellings (usbl, depth, dvl; 15-state noise matrices) mean the same as the present ones, an existing configuration is never altered, and without one the shipped default is stored and used.",
  ["inputs"], "all subsets of output switches x cameras x fixes x Kalman filter; all single and paired left-out options; all combinations of older spellings",
  "Each product and default needs its own configuration; tests use one.",
  [A + "process.py", A + "tools/csv_tools.py", A + "localisation/ekf.py", A + "default_yaml/auv_nav.yaml"],
  [("reading auv_nav.yaml", "process.py: load_localisation"), ("csv switches", "process.py: csv_output_activate ..."), ("fallback uncertainties", "ekf.py: Measurement.from_*")],
  EX + "enumeration of all switch subsets and left-out options through the real processing; oracle: the products of the explicit configuration, and the product list derived from cameras, fixes and filters",
  "switch subsets complete for dead reckoning (256) and Kalman filter (32); left-out options up to 2 (3) at once; plots not drawn")

prop("C28", "ALR and Autosub logs become one measurement per valid record",
  "Parsing an ALR log (csv with any of its time columns, or Matlab) or an Autosub log (Matlab) gives for each quantity exactly one measurement per record in which that quantity is valid (bottom lock for velocity and altitude, no missing value, a GPS position for a fix), at the record's time, in metres, metres per second and degrees with the sign of the log, and with a non-negative uncertainty by the configured model; invalid records of one quantity do not affect the others, and of records with one time the last valid one counts.",
  ["inputs"], "all sequences of kinds of records (valid, without lock, with any value missing, with or without a fix, with a repeated time) up to a bounded length x file forms x places x signs",
  "No test reads these formats; errors depend on which value is missing where.",
  [A + "parsers/parse_alr.py", A + "parsers/parse_autosub.py", A + "parsers/load_matlab_file.py", A + "sensors.py", A + "parse.py"],
  [("ALR parser", "parse_alr.py: parse_alr"), ("Autosub parser", "parse_autosub.py: parse_autosub"), ("measurement classes", "sensors.py: from_alr, from_autosub")],
  EX + "enumeration of all record sequences, written as log files and parsed with the real command; oracle: the records themselves",
  "up to 4 (5) records; times in order; time zone and offset zero")

prop("C29", "Image correction follows its configuration files, its cameras and its suffix",
  "A camera is corrected exactly if camera.yaml and correct_images.yaml both name it and it has images (those of every folder its path names), in the same way whichever other cameras there are and in whatever order they are listed. camera.yaml of the configuration folder precedes that of the raw folder, and the shipped one of the image format is used if there is neither; one of another camera system is refused. Camera options left out have their defaults (no image list, brightness 30, contrast 3, no subtraction, unit gains) and older spellings (distance metric none, a single altitude filter) mean the same as the present ones. A suffix selects its own configuration and result folders, configurations that differ in metric, brightness, contrast, diagonal gains or subtractors have their own image folders, and runs with one neither use nor change the results of another; a suffix with other characters than letters, digits, dash and underscore is refused. Several dives are parsed together exactly if method, metric, smoothing, window and cameras are the same. `correct` gives what `parse` and then `process` give, an existing configuration is never changed, and without one the shipped default of the image format is stored.",
  ["inputs", "configurations", "histories"], "all small sets of left-out options and older spellings; all lists of configured cameras x cameras of the system x cameras with images; all pairs of camera.yaml; all sequences of suffixes and of configurations up to a bounded length; all pairs of dives differing in one option; all sets of folders x path patterns",
  "Tests use one configuration of one camera; precedence, defaults and interference between runs show only in combinations.",
  ["src/correct_images/correct_images.py", "src/correct_images/parser.py", "src/correct_images/corrector.py", "src/oplab/camera_system.py"],
  [("configuration", "parser.py: CorrectConfig, ColourCorrection, CameraConfig, is_equivalent"), ("files", "correct_images.py: load_configuration_and_camera_system"), ("folders", "corrector.py: create_output_directories"), ("images", "camera_system.py: CameraEntry.image_list")],
  EX + "enumeration of configurations, cameras, files and command sequences through the real command line; oracle (metamorphic): the same dive with everything written out, with a single camera, or with a single run, file for file",
  "two cameras, five 4 x 5 pixel images each, up to 2 (3) options left out at once, histories of 2 (3) runs; plots left out; not voyis and rosbag")

prop("C30", "Sonardyne logs become one position fix per record of the vehicle",
  "Parsing the position sentences of a Sonardyne system (the four GGA log layouts) gives exactly one fix per complete sentence of the configured beacon, and parsing its MRT logs exactly one per position of the vehicle, at the record's time (in UTC, also across midnight), at the logged latitude, longitude and depth in the hemisphere of the log, and in metres from the origin; sentences of other beacons, broken or cut sentences and other kinds of records add, remove and change nothing, whatever the files they are split into. An MRT fix carries the ship position and heading logged next to it, the distance to that ship and the uncertainty of the configured model in metres and degrees.",
  ["inputs"], "all sequences of kinds of lines up to a bounded length x the log layouts; places in all hemispheres, time zones, spacings across midnights, splits into files, order of the lines",
  "No test reads these logs; errors depend on what stands next to a record.",
  [A + "parsers/parse_sonardyne_mrt.py", A + "parse.py", A + "tools/latlon_wgs84.py"],
  [("GGA", "parse_sonardyne_mrt.py: parse_gga_txt, parse_gga2_txt, parse_gga3_txt, parse_gga4_txt, parse_sonardyne_gga*"), ("MRT", "parse_sonardyne_mrt.py: parse_mrt_csv, find_closest_observations, parse_sonardyne_mrt")],
  EX + "enumeration of all line sequences, written as log files and parsed with the real command; oracle: the records themselves and WGS84 radii of curvature",
  "up to 3 (4) sentences, 4 (5) MRT records of any kind, 6 of the three used kinds; time offset zero; at least one ship position and heading")

prop("C31", "The particle filter moves, weighs and redraws its particles by its motion and observation model",
  "Whatever the random draws and whatever the times of the position fixes, every particle starts where dead reckoning starts and is moved from epoch to epoch (every dead-reckoning record and every fix between the first and the last of them) by the body velocities and attitude of the latest record, each with an error of the configured standard deviation (in metres per second and degrees). Each fix multiplies the weight of every particle by the normal density of its distance to the fix and the weights are normalised; exactly if the effective number of particles is below half they are redrawn, each particle as often as its weight says (rounded down or up, on average exactly), as independent copies of equal weight. The published trajectory is that of the particle with the largest weight, with the attitude of each epoch; the positions written for the vehicle, the velocity sensor, the cameras and the payloads are offset by their mounting, and latitudes and longitudes agree with the offsets in metres.",
  ["inputs", "random draws"], "all sequences of normal draws up to a length (cycled) x offsets of the redrawing x sets of fix times (before, at, between, after the records) x particle numbers x error models; all small weight vectors x redrawing offsets; dives x cameras x headings x hemispheres through the command",
  "A random algorithm: a test sees one seed; the law must hold for every draw and every order of fixes.",
  [A + "localisation/pf.py", A + "process.py"],
  [("motion", "pf.py: DeadReckoningMovementModel.propagate"), ("weights", "pf.py: UsblObservationModel.measure, ParticleFilter.measure"), ("redrawing", "pf.py: ParticleFilter.resample, get_neff"), ("loop", "pf.py: run_particle_filter, get_prior"), ("products", "process.py: pf_fusion_*")],
  EX + "enumeration of the random draws (the generator is replaced by every short sequence in turn) with a monitor on the real filter that recomputes motion, weights and redrawing of every step, and the real process command without noise against an independent integration",
  "1 or 3 (4) particles, up to 3 fixes, draws of -1, 0, 1 in cycles of up to 3; horizontal position (the depth of a pose also has the vertical motion since the last epoch added); the case of all weights underflowing is left out")
