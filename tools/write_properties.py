#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

FEEDS = ["src/data/wave_data_record.rs", "src/data/spectral_wave_data_record.rs",
         "src/data/grib_index_record.rs", "src/data/forecast_cbulletin_wave_data_record.rs",
         "src/dimensional_data.rs"]

prop("C01", "Undamaged feed rows are delivered once, in order, as published",
 "In a buoy or model text feed (buoy wave summary, the five buoy spectral files, GRIB index, wave bulletin), every row that arrived undamaged is delivered exactly once, in document order, with the published date and values in metric units, a missing marker reading as absent and the total and component swell it offers being the published ones (the energy of a bulletin's components that of their metric heights and periods). "
 "This holds whatever happened to the other rows on the way: cut short, corrupted, lost, duplicated, reordered or spliced from two publications. "
 "A damaged row yields at most one record.",
 ["fault_sequences", "inputs", "histories"],
 "All publications a buoy or model can make (dates, missing fields, sensor outages, bin counts) and all sequences of network faults on the documents carrying them.",
 "The unit tests decode one clean row each and the integration tests count rows of one pristine mock file; no test damages a feed or compares more than a few fields, so row isolation under faults is never exercised.",
 FEEDS + ["src/units/steepness.rs", "src/units/direction.rs", "src/units/cardinal_direction.rs", "src/swell.rs"],
 [("flexible row reader that drops rows failing to decode", "*Collection::records in src/data/*.rs"),
  ("per-row decoders", "ParseableDataRecord::from_data_row implementations"),
  ("missing marker to absent value", "DimensionalData::from_raw_data")],
 observe=["the iterators returned by records()"])

prop("C02", "No damage to a fetched document crashes or hangs its consumer",
 "Whatever bytes a client receives in place of a published document (truncated, corrupted, torn, with lost, duplicated or reordered lines, or empty), decoding it and then using whatever was decoded (unit conversion, swell extraction, saving as JSON, swell tracking) finishes with results or errors. "
 "It never panics, never fails to terminate, and the next undamaged document is decoded normally.",
 ["fault_sequences", "inputs"],
 "All fault sequences on every document kind the library decodes: buoy and model text feeds, spectral forecasts, tide and weather JSON, station lists.",
 "Every existing test feeds well-formed input; not one truncates or corrupts a document, so no panic path of the decoders is reached.",
 FEEDS + ["src/data/forecast_spectral_wave_data_record.rs", "src/data/directional_spectral_wave_data_record.rs",
  "src/data/tidal_data_record.rs", "src/data/nws_weather_forecast_data_record.rs", "src/tide_station.rs", "src/tools/analysis.rs", "src/tools/waves.rs"],
 [("errors returned instead of panics", "DataRecordParsingError and the serde_json results"),
  ("rows failing to decode are skipped", "filter_map(|d| d.ok()) in records()")],
 observe=["process survival, returned Result values"])

prop("C03", "Forecast bulletin rows are dated at the instant they forecast",
 "Every row of a wave bulletin is dated at exactly the instant the row forecasts, for every model cycle and every forecast hour the bulletin carries, including rows past the end of a month or of a year and around 29 February. "
 "The model run date reported with the bulletin is the cycle that produced it, so row dates start at the cycle and increase hour by hour.",
 ["histories", "inputs", "fault_sequences"],
 "All cycles a simulated model clock can reach (across years, leap years and month ends), all horizons up to 16 days, and all losses of rows in transit.",
 "The unit tests cover one row with one month change in May; no test crosses December or February or a leap day, and the mock file stays within one month.",
 ["src/data/forecast_cbulletin_wave_data_record.rs"],
 [("day-of-month rollover against the cycle date", "ForecastCBulletinWaveRecord::from_data_row"),
  ("cycle header", "ForecastCBulletinWaveRecordMetadata::from_str")],
 observe=["ForecastCBulletinWaveRecord.date", "ForecastCBulletinWaveRecordMetadata.model_run_date"])

prop("C04", "Intact forecast steps survive damage to the rest of a spectral forecast",
 "Each step of a point spectral forecast that arrived intact is delivered exactly once and in order, with the published time, position, depth, wind, current and spectrum (energies exact, frequencies exact, directions to within one degree of the published ones, reported as coming-from), and all steps of one decode report the same reference time, that of the first step. "
 "A truncated or damaged step is dropped or delivered with a complete set of energies, those of whole lines received, and never causes another step to be lost, altered or duplicated.",
 ["fault_sequences", "inputs"],
 "All forecasts (grid sizes, positions, step counts, values) and all sequences of truncation, corruption, line loss, duplication and reordering on the document.",
 "The only test of the stream reads one pristine file; the unit test covers the header of a clean document.",
 ["src/data/forecast_spectral_wave_data_record.rs", "src/spectra.rs"],
 [("step-by-step line reader with end-of-data detection", "ForecastSpectralWaveRecordIterator::parse_next"),
  ("header decides the energies each step must carry", "ForecastSpectralWaveDataRecordMetadata::from_str")],
 state=[("reference_date", "first step's time, shared by later steps", "ForecastSpectralWaveRecordIterator")],
 observe=["ForecastSpectralWaveDataRecordCollection::records"])

prop("C05", "Model-run choice is the newest run already published on the client's clock",
 "For every reading of a client's clock, the run chosen is the latest one whose publication delay has passed: the latest 00/06/12/18 UTC cycle at least 5 hours old for gridded data and at least 6 hours old for station data, and the latest whole hour at least 2 hours old for hourly models. "
 "So the choice is never a run still unpublished, never goes back while the clock advances, skips no run when polled often enough, and depends on nothing but the clock reading, whatever the clock's skew, steps or sub-second part. "
 "Rounding to a multiple of hours is the floor within the UTC day, and the list of runs for a time window holds every cycle from the one current at its start to the last one not after its end, once each, ascending.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "All poll schedules and all clock histories of clients (drift, skew, forward and backward steps, sub-second readings, month, year and leap-day boundaries).",
 "The unit tests evaluate each function at one instant (2023-04-13 23:00); boundaries, monotonicity over a polling history and the agreement between the functions are not tested.",
 ["src/tools/date.rs"],
 [("floor to cycle after subtracting the publication delay", "closest_gfs_model_gridded_datetime, closest_gfs_model_stations_datetime, closest_hourly_model_datetime"),
  ("cycle enumeration", "gfs_model_fmrc_datetimes"), ("floor", "round_to_nearest_multiple_hour")],
 observe=["returned run dates"])

prop("C06", "Swell tracking keeps identities unique and continuous over gappy histories",
 "Tracking swell components over a history of time steps returns the same steps and components with only the partition id changed: the first step keeps its ids, ids within a step are distinct, and an id carries over only from the immediately preceding step to a component within the direction tolerance, measured around the circle. "
 "Each component takes the identity of its best-scoring predecessor (direction difference over the tolerance plus period difference over the expected dispersion) unless a better-matching component claims it, a total beyond 999 counting as no match; otherwise it gets an id never used before in the history. "
 "Steps that are empty, repeated, late or missing values never break tracking (a component without direction or period matches none), and later steps never change the ids given to earlier ones.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of swell components, with steps lost, duplicated, delayed or empty and components dropping in and out, from first ids of any numbering, for any tolerance and source distance.",
 "The only test of tracking prints its result for one gap-free forecast and asserts nothing about identities.",
 ["src/tools/waves.rs", "src/swell.rs"],
 [("greedy best-score matching against the previous step", "track_partitions"),
  ("expected frequency drift of swell", "dfp_swell_sea")],
 state=[("partition_count", "next fresh id", "track_partitions"), ("partition_map", "ids assigned per step", "track_partitions")],
 observe=["track_partitions return value"])

prop("C07", "Results depend only on inputs, not on what runs before or alongside",
 "Any operation (decoding a document, extracting or filtering swell, tracking, projecting, regridding, contouring, converting, choosing a run) gives the same result for the same input every time: run alone in a fresh process, repeated, after any other operations, interleaved at any point with other callers' operations, or abandoned half-way by another caller. "
 "Iteration order, hash seeding and reuse of a precomputed projection map for other data on the same grid never show in a result.",
 ["schedules", "histories"],
 "All interleavings of concurrent callers (preempted inside library calls), all orders of operations, and all hash seeds.",
 "Tests run each operation once in one process with one random hash seed and compare no two runs, so schedule- and history-dependence is invisible to them.",
 ["src/swell.rs", "src/spectra.rs", "src/tools/waves.rs", "src/tools/analysis.rs", "src/tools/contour.rs", "src/tools/interpolation.rs", "src/data/wave_data_record.rs",
  "src/data/forecast_spectral_wave_data_record.rs"],
 [("pure functions without shared state", "whole crate"),
  ("grouping of components by period", "SwellSummary::probable_false_components"),
  ("projection through a precomputed map", "Spectra::project_cartesian_with_map")],
 observe=["return values of public operations"])

prop("C08", "Saved records survive crash and restart unchanged; torn saves are refused",
 "Every record, swell summary, spectrum, station or collection saved as JSON and loaded again, after a crash at any point, has the same dates, values (to floating-point round-off), missing values, units, names and ids, and loading and saving again changes nothing more. "
 "A save torn by the crash (cut short at any point) is refused with an error rather than loaded as something else. "
 "Work resumed from saved records (swell extraction, tracking, unit conversion, projection) gives the results an uninterrupted run gives.",
 ["crash_points", "histories", "fault_sequences"],
 "All crash points of a client saving what it decoded (before, during and after each write, with torn or lost writes) and all histories of feeds before and after the crash.",
 "One unit test round-trips a single value and checks only that loading succeeded; no record type is reloaded and compared, and no crash or torn save is simulated.",
 ["src/dimensional_data.rs", "src/swell.rs", "src/spectra.rs", "src/data/tidal_data_record.rs", "src/data/wave_data_record.rs", "src/data/spectral_wave_data_record.rs",
  "src/data/directional_spectral_wave_data_record.rs", "src/data/forecast_spectral_wave_data_record.rs", "src/data/forecast_cbulletin_wave_data_record.rs",
  "src/data/grib_index_record.rs", "src/data/nws_weather_forecast_data_record.rs", "src/tide_station.rs", "src/location.rs", "src/units/mod.rs", "src/units/direction.rs"],
 [("serde derives and the hand-written serializer of values", "Serialize/Deserialize implementations")],
 observe=["serde_json round trips of public record types"])

prop("C09", "No sequence of unit-system changes alters the quantity",
 "Switching a value, swell or record between unit systems, any number of times in any order and with saves and reloads in between, never changes the physical quantity: after any sequence the value agrees with the one direct conversion of the original to the unit now shown, to rounding, and returning to the original unit returns the original value. So is the swell a record offers after it was switched. "
 "Every conversion agrees with the true factor between the two units within 0.1 percent (temperatures within 0.1 degree), the unit shown belongs to the system asked for, absent values stay absent, and quantities without a counterpart in a system are left alone.",
 ["histories", "inputs"],
 "All sequences of unit-system requests by clients over all units and values (negative, zero, tiny, huge, absent), interleaved with saves and reloads.",
 "No test converts a value twice; the decoders convert once from metric to metric, so factors, precedence and drift are untested.",
 ["src/units/mod.rs", "src/dimensional_data.rs", "src/swell.rs", "src/data/wave_data_record.rs", "src/data/forecast_cbulletin_wave_data_record.rs", "src/data/forecast_spectral_wave_data_record.rs"],
 [("conversion table", "Unit::convert"), ("target unit of a system", "Unit::convert_system"), ("in-place conversion", "UnitConvertible::to_units")],
 state=[("unit", "unit in which the value is now expressed", "DimensionalData")],
 observe=["DimensionalData.value and .unit after to_units"])

prop("C10", "Swell partitioning accounts for every bin and all energy, despite dropouts",
 "For every directional spectrum a buoy or model reports, including flat, silent and multi-system seas and buoys whose sensors drop out for some frequencies, every bin gets one label in the reported range (none within five bins of a clear peak goes without a partition unless blurred), every partition is one connected region (directions wrapping around), and the components' spectra sum to the original. "
 "Each swell component's height, period, direction and peak density are those of its partition's own energy, components come in descending energy order, the summary accounts for all energy, and only components under 0.1 m are left out; a frequency with any of its five measurements missing contributes nothing. "
 "Without blur one swell system forms one partition wherever it lies and peaks with a clear trough between them never share one. "
 "Spectrum values are never negative, and rebuilding from the five measurements agrees with the standard directional formula.",
 ["fault_sequences", "inputs", "histories"],
 "All simulated sea states, instrument grids, blur settings and sequences of sensor outages per frequency and per measurement.",
 "The watershed tests check only that a random grid is accepted and neighbour counts on tiny grids; nothing checks labels, connectivity, energy accounting or outages.",
 ["src/tools/analysis.rs", "src/tools/waves.rs", "src/spectra.rs", "src/data/directional_spectral_wave_data_record.rs", "src/tools/vector.rs", "src/tools/math.rs"],
 [("watershed segmentation", "watershed, nearest_neighbors"), ("means per partition", "pt_mean"),
  ("spectrum from five measurements, outage markers skipped", "DirectionalSpectralWaveDataRecord::new"),
  ("split by label", "Spectra::from_component, split_from_components")],
 observe=["Spectra::partition, Spectra::swell_data, Spectra::from_component"])

prop("C11", "Tide and weather documents decode completely and exactly, or not at all",
 "A tide prediction, tide station list, weather grid point or hourly weather document that arrived whole is decoded to exactly the published entries, in order, with their instants (zone offsets applied), values, units, tide event kinds and texts, whatever the field order, number style or unknown extra fields. "
 "One cut short at any point, or with a required field missing, is refused as a whole rather than delivered in part.",
 ["fault_sequences", "inputs", "histories"],
 "All documents the simulated services publish and all truncations, splices and field losses in transit.",
 "The tests decode one pristine document per service and count entries; no truncation, alternative number style or offset is tried.",
 ["src/data/tidal_data_record.rs", "src/tide_station.rs", "src/data/nws_weather_forecast_data_record.rs"],
 [("typed JSON decoding", "from_json, TideStations::from_raw_data"), ("instants", "utc_date_time_from_str"), ("text or number values", "tidal_value_f64")],
 observe=["TidalDataRecordCollection, TideStations, NwsGridPointData, NwsWeatherForecastDataRecordCollection::records"])

prop("C12", "Weather-observation and station-list documents behave like the other feeds",
 "Rows of the buoy meteorological feed and of the all-stations latest-observation feed that arrived undamaged are delivered exactly once, in order, with the published station, position, date and values in metric units, missing markers reading as absent, whatever happened to other rows; damage never panics and unit-system changes keep every quantity. "
 "A whole station list is decoded to exactly the published stations (identity, position, kind, what they measure, whether active), survives a save and reload, finds each station by its id, and merging it with observations attaches to each station the observations of that station and nothing else.",
 ["fault_sequences", "inputs", "histories"],
 "All publications and all network fault sequences on them, and all unit-system histories.",
 "These files do not even compile in this sandbox's test build; upstream tests count rows of pristine mock files.",
 ["src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/buoy_station.rs"],
 [("row decoders", "MeteorologicalDataRecord::from_data_row, LatestObsDataRecord::from_data_row"),
  ("station list", "BuoyStations::from_raw_data"), ("merge", "latest_obs_feature_collection")],
 observe=["records(), latest_obs_feature_collection"])

prop("C13", "Model file addresses name the newest published run on the client's clock",
 "The address built for a model file names the run that is newest among those already published at the instant asked for, or at the client's own clock when no instant is given, together with the requested forecast hour, model, region and source, and the index address is that address plus the index suffix. "
 "As the clock advances the run named never goes back, and date parts are zero-padded across hours, days, months and years.",
 ["schedules", "histories", "fault_sequences"],
 "All clock histories of a client (skew, steps, boundaries), all models, sources and forecast hours.",
 "Upstream tests build one address per model at one instant, and these files are not compiled in this sandbox's test build.",
 ["src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs", "src/model/noaa_model.rs", "src/buoy_station.rs"],
 [("address templates", "NOAAModel::create_url"), ("clock default", "Utc::now in create_url")],
 observe=["create_url, create_idx_url"])

prop("C20", "Requests for a tide station or a place fetch exactly its data",
 "A client that picks a tide station (from the published list in order, by id, through its map features, from an earlier save, or made by hand) or a place, and fetches with the addresses the library builds, receives exactly that station's predictions for the asked window (to the minute, both ends included), datum, interval and units, or exactly that place's grid point, forecast and hourly forecast. "
 "Failed, refused or damaged answers lead to an error and a retry, never to other data, and once the servers recover one further round of requests gets everything.",
 ["histories", "fault_sequences", "inputs", "schedules"],
 "All sessions of clients with skewed clocks against servers that lose, refuse, cut or spoil answers; all stations, places, windows, datums, intervals and units.",
 "The unit tests compare one built address with a literal; none is ever answered by a server that reads the address, so swapped or stale parts and lost precision go unseen.",
 ["src/tide_station.rs", "src/weather.rs", "src/station.rs", "src/data/tidal_data_record.rs", "src/data/nws_weather_forecast_data_record.rs", "src/units/mod.rs"],
 [("address of a tide prediction", "TideStation::tidal_data_url"), ("lookup by id", "TideStations::find_station_by_id"),
  ("addresses of a place", "src/weather.rs"), ("map features", "Station::as_feature")],
 observe=["addresses requested from the simulated servers, documents decoded from their answers"])

prop("C19", "A client following a model run by output index gets every output once, in order",
 "A client that steps through a model run by output index, loses answers, restarts knowing only what it stored, or asks for a window of forecast hours, fetches exactly the hours that model publishes: every output once, in order, none between outputs and none beyond. "
 "Index and hour map back onto each other at and around the change of step, for every output resolution and cut-off.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "All sessions with losses and restarts at any point, all models, resolutions, cut-offs and windows.",
 "Unit tests evaluate a few indexes and hours of two cut-offs; no run is followed to its end and no restart happens between outputs.",
 ["src/model/noaa_model.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs"],
 [("index arithmetic", "ModelTimeOutputResolution"), ("per-model resolution", "NOAAModel::time_resolution")],
 observe=["hour_for_index, index_for_hour, hours_for_hour_range, addresses requested"])

prop("C21", "Histories asked for by range hold exactly the records asked for",
 "A client that asks a station's weather or spectral history for a range of records and frequencies with a stride, through constraints built or read from text in any order of variables, decodes exactly the records the archive holds for that range: every date, value, frequency and unit, in order, missing values missing. "
 "An answer that is lost, cut or an error page never yields records, an answer from a mirror that holds less yields only what it holds, a constraint reads back as itself, and a malformed one is an error, not a panic.",
 ["histories", "fault_sequences", "inputs", "schedules"],
 "All sessions, ranges, strides, variable orders, archives and answers.",
 "Unit tests decode one saved answer and format one constraint; no request is ever answered, and these files are not compiled in this sandbox's test build.",
 ["src/tools/dap.rs", "src/buoy_station.rs", "src/data/meteorological_data_record.rs", "src/data/swden_wave_data_record.rs"],
 [("constraints", "DapConstraint, format_dap_constraints"), ("addresses", "BuoyStation::stdmet_dods_url, swden_dods_url"),
  ("decoders", "StdmetDataRecordCollection, SwdenWaveDataRecordCollection")],
 observe=["addresses requested, records decoded"])

prop("C22", "The waves at a place are those of the model's cells around it",
 "A record read out of the messages of one model output holds the means, over the cells within the tolerance that are not masked, of exactly the quantities whose messages arrived intact, whatever order, duplicates, losses and damage the messages met: the output's valid time, height and period, directions averaged as directions, wind, and each whole component, largest first. "
 "Without height, period or direction there is an error naming what is missing, never a made-up record. Direct queries give the cells around, the nearest cell or the value between the cells of the place, on any regular grid including over the date line and around the globe, and an error for damaged messages and places outside.",
 ["fault_sequences", "inputs", "schedules", "histories"],
 "All grids, places, tolerances, masks and faults on the messages; all later unit switches and restarts.",
 "The unit tests for this code need GRIB files and a dependency that are absent here, and sample one location of one grid.",
 ["src/data/gfs_wave_grib_point_data_record.rs", "src/model/noaa_model.rs", "src/tools/analysis.rs", "src/tools/contour.rs", "src/location.rs"],
 [("record from messages", "GFSWaveGribPointDataRecord::from_messages"), ("grid queries", "NOAAModel::query_location_tolerance, query_location_data, interp_location_data, contour_data")],
 observe=["records and query results"])

prop("C14", "A sea state brought to other grids is neither invented nor lost",
 "A client that keeps a timeline on a grid of its own, whatever grids its sources use and change to, holds energies that are finite and never negative, equal the source at the source's own frequencies and directions, lie between the source bins around them elsewhere, and are zero below the lowest source frequency. "
 "Directions are circular: north is one direction, turning or relisting the source turns or leaves the result, and more energy gives proportionally more. "
 "This holds grid after grid, for damaged forecasts, sensor outages and work done again after a crash.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "All sources with ascending frequencies and distinct directions, all ascending target grids, chains of them, with saves, crashes and damaged documents in between.",
 "Unit tests interpolate a handful of small arrays once; no test follows a sea state through several grids, around north, at the ends of the source's range, or through a crash.",
 ["src/spectra.rs", "src/tools/interpolation.rs"], [("monotone cubic interpolation along frequency", "PchipInterpolator"), ("circular interpolation along direction", "circular_pchip_interpolate"), ("order of the source directions", "Spectra::interpolate_to_grid")],
 observe=["Spectra::interpolate_to_grid"])

prop("C23", "Charts of a spectrum show each bin's own energy where it belongs",
 "A client that charts sea states frame after frame sees, in every pixel of the polar chart, the value of the bin nearest to it: north at the top, coming-from directions clockwise, distance from the centre growing with the period on the chosen scale, bins longer than the chosen period left out. A projection map computed once serves every later frame and data set on the same grid. "
 "The one-dimensional spectra and moments hold the bins' sums over the other axis, the grid and range of values read off are the spectrum's, and the mean direction of each frequency is that of its own bins, whichever direction convention the spectrum has, whichever direction is listed first and whichever way they run. A contour passes where the bins, joined by straight lines, have its value, and a value read off between bins follows from the four bins around it. Energies packed into bytes come out within a step of what they were. Charts of damaged or incomplete spectra are drawn or refused, never a panic, and charts drawn after a restart are those drawn before.",
 ["inputs", "histories", "fault_sequences", "crash_points", "schedules"], "All grids, conventions, listings, chart sizes, scales and thresholds, series of frames with damage, dropouts and restarts in between.",
 "Unit tests draw one spectrum and look at the result by eye or at its length; none follows a series of frames, another convention or a damaged spectrum.",
 ["src/spectra.rs", "src/tools/vector.rs", "src/tools/contour.rs"], [("polar projection", "Spectra::compute_cartesian_projection_map, project_cartesian_with_map, project_cartesian"), ("one axis", "Spectra::oned, mom_d, mean_wave_direction_f, dth, dk"), ("contours", "Spectra::contoured, ik, ith, energy_range"), ("values between bins", "Spectra::interp_energy, closest_k, closest_th")],
 observe=["projection maps and pixels", "one-dimensional spectra", "mean directions", "corners and levels of contours", "interpolated energies"])

prop("C24", "Screening a swell list removes mirror images only, in every unit system",
 "Instruments and models sometimes show a swell twice, once from the opposite direction. The components a summary names as probably false are those that share the shown period of the first (strongest) listed one and come from the opposite direction, within 10 degrees, across north too; every other component is kept, in its order and unchanged. "
 "The first of its period is never removed, a component without direction is never removed and has no mirror images, screening does not touch the summary, screening the screened list removes nothing, and neither unit switches nor saves and restarts nor other clients change the verdict.",
 ["inputs", "histories", "fault_sequences", "schedules"], "All lists of components, from bulletins, buoys, forecasts or entered by hand, with missing directions, in every unit system and after any restarts.",
 "No unit test screens a list at all; the order of removal depends on hash seeds and the result on directions across north.",
 ["src/swell.rs", "src/units/direction.rs"], [("screening", "SwellSummary::probable_false_components, filtered_components"), ("opposite directions", "Direction::is_opposite")],
 observe=["indexes named probably false", "screened lists", "the summary after screening"])

prop("C25", "What clients show of values, units and directions is what they hold",
 "The text of a value is the value held to one decimal and the label of its unit (degrees without one), the text of a swell its height, period and direction; a missing value is N/A, never a number, and is handed out as missing. The unit's label and name belong to the unit held, before and after unit switches and restarts. "
 "A direction of 0 to 360 degrees is called by the nearest of the sixteen points, turned around by the opposite one. What is shown is read back as the same thing: point names in either case, whole degrees, steepness, and the labels and names of units in either case with blanks around; other texts are missing values, never invented ones. A wind sent as its eastward and northward parts has their speed and the direction it comes from, to a degree.",
 ["inputs", "histories", "fault_sequences", "schedules"], "All records from damaged feeds, typed texts and edits, in every unit system, after any switches, losses and restarts.",
 "Tests look at the text of no value and at the name of no direction; values go missing only when feeds or sensors fail.",
 ["src/dimensional_data.rs", "src/units/mod.rs", "src/units/direction.rs", "src/units/cardinal_direction.rs", "src/units/steepness.rs", "src/swell.rs", "src/tools/math.rs"], [("texts of values", "DimensionalData Display, try_string, unit_label, from_raw_data, get_value"), ("compass points", "CardinalDirection::from_degrees, to_degrees, Direction FromStr, flip, invert"), ("units", "Unit::abbreviation, name, From<&str>")],
 observe=["texts shown", "values handed out", "what texts are read as"])

prop("C15", "Surf estimates and wave formulas satisfy the dispersion relation",
 "Wavelength, wavenumber, celerity, group velocity, refraction and shoaling satisfy the dispersion relation for every period and depth, from shallow to deep water (solvers within 0.1 per cent, approximations within 0.3). The steepness given by a sea's moments is its height over the deep-water length of its mean zero-crossing wave. Breaking height and depth are those of the refracted deep-water wave (Komar and Gaughan, Weggel). The surf estimated from a swell is that breaking height for the angle between the swell and the way the beach faces, measured the short way around the circle, and is refused for swells from behind the beach or with a missing height, period or direction. Fetching, saving and showing a swell in other units before makes no difference.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "All swells a client can hold, periods, depths, slopes and directions of beaches, over restarts and unit switches.", "No unit test computes any of them.",
 ["src/tools/waves.rs", "src/swell.rs"], [("closed formulas and a Newton iteration", "ldis, wavenu3, wavenuma, break_wave, refraction_coefficient, shoaling_coefficient"), ("surf estimate", "estimate_breaking_wave_height")],
 observe=["return values"])
prop("C16", "Distances, bounding boxes and longitude normalisation agree with geometry",
 "The distance between two locations is the same both ways and is that along the great circle between them, within 0.3 per cent or 10 metres, in kilometres or miles as asked for. A location is inside a box exactly when both its coordinates are within it, also for boxes over Greenwich, over the date line and around the whole circle. Normalised coordinates stay in range and name the same point, whichever way longitudes are stated. Stations listed and positions saved are restored as they were or refused.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "All pairs of points and boxes, in either statement of the longitude, over the way of a client and its restarts.", "Unit tests evaluate single points.",
 ["src/location.rs", "src/tide_station.rs"], [("great-circle distance", "Location::distance"), ("membership of a box", "Location::within_bbox"), ("normalisation", "normalize_latitude, normalize_longitude, absolute_longitude"), ("station list", "TideStations")], observe=["return values", "saved text"])
prop("C17", "Sun events for a place and day are ordered and placed on that day",
 "Sunrise and sunset for a place and the day of an instant (in UTC) lie around the noon of that day at the place, sunrise before sunset, each at an instant at which the sun stands at the horizon, rising or setting; there are none exactly where the sun stays up or down all day. They are the same for any instant of that day and whichever way the longitude is stated, and come back from a save as they were or are refused.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "All places and days, polar ones among them, on any client's clock.", "No assertion on order over inputs.",
 ["src/solar.rs", "src/location.rs"], [("external sunrise computation", "src/solar.rs")], observe=["return values", "saved text"])
prop("C18", "Contours of a gridded field enclose exactly the values above their level",
 "A chart of a gridded field has the levels asked for (or evenly from the lowest to the highest value; listed the same from either end), each with its value, its place in the range and its label. Its outlines enclose exactly the grid points whose value is above the level; points without a value are enclosed by none. Between two grid points with values an outline passes where the field, straight from point to point, has the level, at the longitude and latitude of that place. A grid around the world is closed at its seam, whatever longitude it starts at. Charts come back from a save as they were or are refused.",
 ["inputs", "fault_sequences", "crash_points", "schedules"], "All fields, grids, levels and sets of missing values.", "One smoke test on a single grid.",
 ["src/tools/contour.rs", "src/tools/vector.rs", "src/tools/linspace.rs"], [("external marching squares with a coordinate map", "compute_latlng_gridded_contours, compute_contours")], observe=["returned features", "saved text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
