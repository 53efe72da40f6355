//! The library's saveable values behind one interface, and where clients get them from.
use crate::feeds;
use chrono::{DateTime, Duration, Utc};
use crate::fspec;
use crate::jdocs;
use serde_json::Value;
use simkit::rng::{fnv, Rng};
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::tidal_data_record::{TidalDataRecordCollection, TidalEvent};
use surfrs::data::wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellProvider, SwellProviderError, SwellSummary};
use surfrs::tide_station::{TideStation, TideStations};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitConvertible, UnitSystem};

macro_rules! objs {
    ($($name:ident: $t:ty = $kind:literal),* $(,)?) => {
        #[allow(clippy::large_enum_variant)]
        pub enum Obj { $($name($t)),* }
        pub const OBJ_KINDS: &[&str] = &[$($kind),*];
        impl Obj {
            pub fn kind(&self) -> &'static str {
                match self { $(Obj::$name(_) => $kind),* }
            }
            pub fn save(&self) -> Result<String, String> {
                match self { $(Obj::$name(x) => serde_json::to_string(x).map_err(|e| e.to_string())),* }
            }
            pub fn load(kind: &str, text: &str) -> Result<Obj, String> {
                match kind {
                    $($kind => serde_json::from_str::<$t>(text).map(Obj::$name).map_err(|e| e.to_string()),)*
                    _ => Err("SIM-BUG kind".into()),
                }
            }
            /// Loads the way a client with this habit does.
            pub fn load_by(kind: &str, bytes: &[u8], habit: u64) -> Result<Obj, String> {
                let e = |e: serde_json::Error| e.to_string();
                let text = || std::str::from_utf8(bytes).map_err(|e| e.to_string());
                match kind {
                    "tides" if habit % 2 == 0 => return TidalDataRecordCollection::from_json(text()?).map(Obj::Tides).map_err(e),
                    "weather" if habit % 2 == 0 => return NwsWeatherForecastDataRecordCollection::from_json(text()?).map(Obj::Weather).map_err(e),
                    "gridpoint" if habit % 2 == 0 => return NwsGridPointData::from_json(text()?).map(Obj::Grid).map_err(e),
                    $($kind => match habit % 4 {
                        0 => serde_json::from_str::<$t>(text()?),
                        1 => serde_json::from_slice::<$t>(bytes),
                        2 => serde_json::from_reader::<_, $t>(bytes),
                        _ => serde_json::from_slice::<Value>(bytes).and_then(serde_json::from_value::<$t>),
                    }.map(Obj::$name).map_err(e),)*
                    _ => Err("SIM-BUG kind".into()),
                }
            }
            pub fn save_by(&self, habit: u64) -> Result<Vec<u8>, String> {
                let e = |e: serde_json::Error| e.to_string();
                match self { $(Obj::$name(x) => match habit % 3 {
                    0 => serde_json::to_vec(x),
                    1 => serde_json::to_vec_pretty(x),
                    _ => serde_json::to_value(x).map(|v| v.to_string().into_bytes()),
                }.map_err(e)),* }
            }
            pub fn debug(&self) -> String {
                match self { $(Obj::$name(x) => format!("{x:?}")),* }
            }
        }
    };
}

objs! {
    Dim: DimensionalData<f64> = "value",
    Dir: DimensionalData<Direction> = "direction",
    Swell: Swell = "swell",
    Summary: SwellSummary = "summary",
    Wave: WaveDataRecord = "wave",
    Spectral: SpectralWaveDataRecord = "spectral",
    Directional: DirectionalSpectralWaveDataRecord = "directional",
    Idx: GribIndexRecord = "idx",
    CBull: ForecastCBulletinWaveRecord = "cbull",
    CBullMeta: ForecastCBulletinWaveRecordMetadata = "cbull_meta",
    Fspec: ForecastSpectralWaveDataRecord = "fspec",
    FspecMeta: ForecastSpectralWaveDataRecordMetadata = "fspec_meta",
    Spectra: Spectra = "spectra",
    Tides: TidalDataRecordCollection = "tides",
    Station: TideStation = "tide_station",
    Stations: TideStations = "tide_stations",
    Grid: NwsGridPointData = "gridpoint",
    Weather: NwsWeatherForecastDataRecordCollection = "weather",
    WeatherRec: NwsWeatherForecastDataRecord = "weather_rec",
    Loc: Location = "location",
    Steps: Vec<(chrono::DateTime<chrono::Utc>, Vec<Swell>)> = "steps",
}

impl Obj {
    pub fn to_units(&mut self, s: &UnitSystem) -> bool {
        match self {
            Obj::Dim(x) => drop(x.to_units(s)),
            Obj::Dir(x) => drop(x.to_units(s)),
            Obj::Swell(x) => drop(x.to_units(s)),
            Obj::Summary(x) => drop(x.to_units(s)),
            Obj::Wave(x) => drop(x.to_units(s)),
            Obj::CBull(x) => drop(x.to_units(s)),
            Obj::Fspec(x) => drop(x.to_units(s)),
            _ => return false,
        }
        true
    }
    pub fn swell(&self) -> Option<Result<SwellSummary, SwellProviderError>> {
        Some(match self {
            Obj::Wave(x) => x.swell_data(),
            Obj::Directional(x) => x.swell_data(),
            Obj::CBull(x) => x.swell_data(),
            Obj::Fspec(x) => x.swell_data(),
            _ => return None,
        })
    }
    pub fn spectra(&self) -> Option<&Spectra> {
        match self {
            Obj::Directional(x) => Some(&x.spectra),
            Obj::Fspec(x) => Some(&x.spectra),
            Obj::Spectra(x) => Some(x),
            _ => None,
        }
    }
}

const CARDINALS: &[CardinalDirection] = &[
    CardinalDirection::North, CardinalDirection::NorthNorthEast, CardinalDirection::NorthEast, CardinalDirection::EastNorthEast, CardinalDirection::East, CardinalDirection::EastSouthEast,
    CardinalDirection::SouthEast, CardinalDirection::SouthSouthEast, CardinalDirection::South, CardinalDirection::SouthSouthWest, CardinalDirection::SouthWest, CardinalDirection::WestSouthWest,
    CardinalDirection::West, CardinalDirection::WestNorthWest, CardinalDirection::NorthWest, CardinalDirection::NorthNorthWest, CardinalDirection::Invalid,
];
const UNITS: &[Unit] = &[
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit, Unit::InchesMercury, Unit::Knots,
    Unit::Kelvin, Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];
const NAMES: &[&str] = &["", "44097", "Block Island", "Île de \u{211}\u{1F30A}", "quo\"ted \\ name", "tab\there", " spaced ", "null", "N/A", "{}", "9.999"];

fn some_date(r: &mut Rng, d: DateTime<Utc>) -> DateTime<Utc> {
    let d = match r.usize(5) {
        0 => d + Duration::seconds(r.range(1, 59)),
        1 => d + Duration::milliseconds(r.range(1, 999)),
        2 => d + Duration::nanoseconds(r.range(1, 999_999_999)),
        3 => d + Duration::minutes(r.range(-100_000, 100_000)),
        _ => d + Duration::seconds(r.range(-1_000_000_000, 1_000_000_000)),
    };
    d
}
fn some_direction(r: &mut Rng) -> Direction {
    match r.usize(5) {
        0 => Direction::from_cardinal_direction(r.pick(CARDINALS).clone()),
        1 => Direction::from_degrees(r.range(-720, 720) as i32),
        2 => Direction::from_degrees(r.range(0, 360) as i32).invert(),
        3 => Direction::from_radians(r.range(-7000, 7000) as f64 / 1000.0),
        _ => {
            let mut d = Direction::from_degrees(r.range(0, 360) as i32);
            d.flip();
            d
        }
    }
}
fn some_value(r: &mut Rng) -> f64 {
    match r.usize(6) {
        0 => r.range(-1000, 10000) as f64,
        1 => r.range(-1000, 10000) as f64 / 7.0,
        2 => 0.0,
        3 => *r.pick(&[99.0, 999.0, 9999.0, 9.999, 999.9, -0.0, 1e-300, 1e300, 0.1 + 0.2, 5e-324, 1e16, 123456789012345680.0]),
        4 => f64::from_bits(r.u64() & !(1 << 62)),
        _ => r.range(0, 2000) as f64 / 100.0,
    }
}
fn touch_dim(r: &mut Rng, d: &mut DimensionalData<f64>) {
    match r.usize(4) {
        0 => d.value = None,
        1 => d.unit = r.pick(UNITS).clone(),
        2 => d.variable_name = r.pick(NAMES).to_string(),
        _ => d.value = Some(some_value(r)),
    }
}
fn touch_dir(r: &mut Rng, d: &mut DimensionalData<Direction>) {
    match r.usize(4) {
        0 => d.value = None,
        1 => d.variable_name = r.pick(NAMES).to_string(),
        _ => d.value = Some(some_direction(r)),
    }
}
fn touch_swell(r: &mut Rng, s: &mut Swell) {
    match r.usize(7) {
        0 => touch_dim(r, &mut s.wave_height),
        1 => touch_dim(r, &mut s.period),
        2 => touch_dir(r, &mut s.direction),
        3 => s.energy = None,
        4 => s.partition = if r.chance(0.3) { None } else { Some(r.usize(300)) },
        5 => s.spectral_density = None,
        _ => {
            if let Some(e) = &mut s.energy {
                touch_dim(r, e)
            }
        }
    }
}
fn touch_loc(r: &mut Rng, l: &mut Location) {
    match r.usize(4) {
        0 => l.name = r.pick(NAMES).to_string(),
        1 => l.elevation = *r.pick(&[0.0, 0.5, -3.0, 12.25, 100.0]),
        2 => l.latitude = r.range(-9000, 9000) as f64 / 100.0,
        _ => l.longitude = r.range(-36000, 36000) as f64 / 100.0,
    }
}

impl Obj {
    /// The quantities of a value a client may switch one at a time.
    fn dims_mut(&mut self) -> Vec<&mut DimensionalData<f64>> {
        fn sw(s: &mut Swell) -> Vec<&mut DimensionalData<f64>> {
            let mut v = vec![&mut s.wave_height, &mut s.period];
            v.extend(s.energy.as_mut());
            v
        }
        match self {
            Obj::Dim(x) => vec![x],
            Obj::Swell(x) => sw(x),
            Obj::Summary(x) => sw(&mut x.summary).into_iter().chain(x.components.iter_mut().flat_map(sw)).collect(),
            Obj::Wave(x) => vec![&mut x.wave_height, &mut x.swell_wave_height, &mut x.swell_wave_period, &mut x.wind_wave_height, &mut x.wind_wave_period, &mut x.average_wave_period],
            Obj::CBull(x) => std::iter::once(&mut x.significant_wave_height).chain(x.swell_components.iter_mut().flat_map(sw)).collect(),
            Obj::Fspec(x) => vec![&mut x.depth, &mut x.wind_speed, &mut x.current_speed],
            _ => vec![],
        }
    }
    /// Parts of a value in other systems than the rest, or absent, as after a client switched or cleared them.
    pub fn mix(&mut self, r: &mut Rng) {
        let systems = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];
        let (p, absent) = (*r.pick(&[0.1, 0.5, 0.9]), r.chance(0.4));
        if let (Obj::Summary(x), true) = (&mut *self, r.chance(0.5)) {
            let s = r.pick(&systems).clone();
            match r.usize(3) {
                0 => drop(x.summary.to_units(&s)),
                1 => x.components.iter_mut().for_each(|c| drop(c.to_units(&s))),
                _ => x.components.iter_mut().take(1).for_each(|c| drop(c.to_units(&s))),
            }
        }
        for d in self.dims_mut() {
            if r.chance(p) {
                d.to_units(r.pick(&systems));
            }
            if absent && r.chance(0.2) {
                d.value = None;
            }
        }
    }
    /// What a client may have done to a value before it saves it: edited it through its public fields, or
    /// converted it. Units of quantities are only relabelled where nothing computes with them afterwards.
    pub fn touch(&mut self, r: &mut Rng) {
        if r.chance(0.3) {
            self.to_units(&r.pick(&[UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin]).clone());
            return;
        }
        match self {
            Obj::Dim(x) => touch_dim(r, x),
            Obj::Dir(x) => touch_dir(r, x),
            Obj::Swell(x) => touch_swell(r, x),
            Obj::Summary(x) => {
                let n = x.components.len();
                match r.usize(3) {
                    0 => touch_swell(r, &mut x.summary),
                    1 => x.components.clear(),
                    _ if n > 0 => {
                        let i = r.usize(n);
                        touch_swell(r, &mut x.components[i])
                    }
                    _ => {}
                }
            }
            Obj::Wave(x) => match r.usize(11) {
                0 => x.date = some_date(r, x.date),
                1 => touch_dim(r, &mut x.wave_height),
                2 => touch_dim(r, &mut x.swell_wave_height),
                3 => touch_dim(r, &mut x.swell_wave_period),
                4 => touch_dim(r, &mut x.wind_wave_height),
                5 => touch_dim(r, &mut x.wind_wave_period),
                6 => touch_dir(r, &mut x.swell_wave_direction),
                7 => touch_dir(r, &mut x.wind_wave_direction),
                8 => x.steepness = r.pick(&[Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA]).clone(),
                9 => touch_dim(r, &mut x.average_wave_period),
                _ => touch_dir(r, &mut x.mean_wave_direction),
            },
            Obj::Spectral(x) => match r.usize(4) {
                0 => x.date = some_date(r, x.date),
                1 => x.separation_frequency = if r.chance(0.3) { None } else { Some(some_value(r)) },
                2 => x.value.iter_mut().for_each(|v| *v = some_value(r)),
                _ => {
                    x.value.clear();
                    x.frequency.clear();
                }
            },
            Obj::Directional(x) => match r.usize(2) {
                0 => x.date = some_date(r, x.date),
                _ => x.spectra.dir_convention = some_convention(r),
            },
            Obj::Idx(x) => match r.usize(5) {
                0 => x.reference_date = some_date(r, x.reference_date),
                1 => x.offset = r.u64() as usize >> r.usize(64),
                2 => x.var = r.pick(NAMES).to_string(),
                3 => x.level = r.pick(NAMES).to_string(),
                _ => x.valid = r.pick(NAMES).to_string(),
            },
            Obj::CBull(x) => match r.usize(4) {
                0 => x.date = some_date(r, x.date),
                1 => touch_dim(r, &mut x.significant_wave_height),
                2 => x.swell_components.clear(),
                _ => {
                    if let Some(s) = x.swell_components.first_mut() {
                        touch_swell(r, s)
                    }
                }
            },
            Obj::CBullMeta(x) => match r.usize(2) {
                0 => x.model_run_date = some_date(r, x.model_run_date),
                _ => touch_loc(r, &mut x.location),
            },
            Obj::Fspec(x) => match r.usize(9) {
                0 => x.date = some_date(r, x.date),
                1 => x.reference_date = some_date(r, x.reference_date),
                2 => touch_loc(r, &mut x.location),
                3 => touch_dim(r, &mut x.depth),
                4 => touch_dim(r, &mut x.wind_speed),
                5 => touch_dir(r, &mut x.wind_direction),
                6 => touch_dim(r, &mut x.current_speed),
                7 => touch_dir(r, &mut x.current_direction),
                _ => x.spectra.dir_convention = some_convention(r),
            },
            Obj::FspecMeta(x) => match r.usize(3) {
                0 => x.point_count = r.usize(3000),
                1 => x.line_count = r.usize(3000),
                _ => x.direction.iter_mut().for_each(|d| *d = some_direction(r)),
            },
            Obj::Spectra(x) => match r.usize(4) {
                // what a station without a spectrum is kept as
                3 => {
                    x.energy.clear();
                    x.frequency.clear();
                }
                0 => x.dir_convention = some_convention(r),
                1 => x.energy.iter_mut().for_each(|e| *e = some_value(r)),
                _ => x.frequency.iter_mut().for_each(|e| *e *= 1.0 + r.range(0, 100) as f64 / 7000.0),
            },
            Obj::Tides(x) => {
                for t in x.records.iter_mut() {
                    match r.usize(4) {
                        0 => t.date = some_date(r, t.date),
                        1 => t.value = some_value(r),
                        2 => t.event = r.pick(&[None, Some(TidalEvent::High), Some(TidalEvent::Low)]).clone(),
                        _ => {}
                    }
                }
                if r.chance(0.1) {
                    x.records.clear();
                }
            }
            Obj::Station(x) => touch_station(r, x),
            Obj::Stations(x) => match x.stations.first_mut() {
                Some(s) if r.chance(0.8) => touch_station(r, s),
                _ => x.stations.clear(),
            },
            Obj::Grid(x) => match r.usize(3) {
                0 => x.properties.grid_id = r.pick(NAMES).to_string(),
                1 => x.properties.grid_x = r.usize(500),
                _ => x.properties.grid_y = r.u64() as usize >> r.usize(64),
            },
            Obj::WeatherRec(x) => match r.usize(10) {
                0 => x.start_time = some_date(r, x.start_time),
                1 => x.end_time = some_date(r, x.end_time),
                2 => x.is_daytime = !x.is_daytime,
                3 => touch_dim(r, &mut x.temperature),
                4 => touch_dim(r, &mut x.dewpoint),
                5 => touch_dim(r, &mut x.humidity),
                6 => touch_dim(r, &mut x.wind_speed),
                7 => touch_dir(r, &mut x.wind_direction),
                8 => x.icon = r.pick(NAMES).to_string(),
                _ => x.short_forecast = r.pick(NAMES).to_string(),
            },
            Obj::Loc(x) => touch_loc(r, x),
            Obj::Steps(x) => match x.first_mut() {
                Some(s) => {
                    s.0 = some_date(r, s.0);
                    if let Some(w) = s.1.first_mut() {
                        touch_swell(r, w);
                    }
                }
                None => {}
            },
            Obj::Weather(_) => {}
        }
    }
}
fn some_convention(r: &mut Rng) -> DirectionConvention {
    r.pick(&[DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met]).clone()
}
fn touch_station(r: &mut Rng, s: &mut TideStation) {
    match r.usize(6) {
        0 => s.station_id = r.pick(NAMES).to_string(),
        1 => s.name = r.pick(NAMES).to_string(),
        2 => s.latitude = r.range(-9000, 9000) as f64 / 100.0,
        3 => s.longitude = r.range(-18000, 18000) as f64 / 100.0,
        4 => s.state = r.pick(NAMES).to_string(),
        _ => s.reference_id = r.pick(NAMES).to_string(),
    }
}

/// The directions a client rebuilds buoy spectra on.
pub fn buoy_directions(world: u64, st: u64) -> Vec<f64> {
    let mut r = Rng::keyed(&[world, fnv(b"dirs"), st]);
    let n = *r.pick(&[4usize, 8, 12, 16, 24, 36]);
    (0..n).map(|i| (i as f64 * 360.0 / n as f64).to_radians()).collect()
}

/// The records of the five measurements, row by row.
pub fn join5(world: u64, st: u64, texts: [&str; 5]) -> Vec<DirectionalSpectralWaveDataRecord> {
    let dirs = buoy_directions(world, st);
    let mut cs: Vec<SpectralWaveDataRecordCollection> = texts.iter().map(|t| SpectralWaveDataRecordCollection::from_data(t)).collect();
    let mut rows: Vec<std::vec::IntoIter<SpectralWaveDataRecord>> = cs.iter_mut().map(|c| c.records().collect::<Vec<_>>().into_iter()).collect();
    let mut out = vec![];
    loop {
        let v: Vec<SpectralWaveDataRecord> = rows.iter_mut().filter_map(|r| r.next()).collect();
        let Ok([e, d1, d2, r1, r2]) = <[SpectralWaveDataRecord; 5]>::try_from(v) else { return out };
        out.push(DirectionalSpectralWaveDataRecord::from_data_records(&dirs, e, d1, d2, r1, r2));
    }
}

pub const FIVE: [&str; 5] = ["data_spec", "swdir", "swdir2", "swr1", "swr2"];

/// A document kind clients fetch; "five" stands for the five measurements of a buoy.
pub const DOC_KINDS: &[&str] = &["spec", "data_spec", "swdir", "idx", "cbull", "fspec", "five", "tides", "tide_stations", "gridpoint", "weather"];

/// The texts a publisher serves for a document kind.
pub fn publish(kind: &str, world: u64, st: u64, t: i64) -> Vec<String> {
    match kind {
        "five" => FIVE.iter().map(|f| feeds::publish(f, world, st, t).text()).collect(),
        "fspec" => {
            let n = 1 + (fnv(&[st as u8, (world % 7) as u8]) % 4) as usize;
            vec![fspec::publish(world, st, t, n, world % 32 == 0).text()]
        }
        k if jdocs::KINDS.contains(&k) => vec![jdocs::publish(k, world, st, t).text()],
        k => vec![feeds::publish(k, world, st, t).text()],
    }
}

/// Everything a client decodes from what it received (Err: refused as a whole).
pub fn decode(kind: &str, world: u64, st: u64, texts: &[String]) -> Result<Vec<Obj>, String> {
    let t = texts[0].as_str();
    let e = |e: serde_json::Error| e.to_string();
    Ok(match kind {
        "five" => {
            let v: [&str; 5] = [t, &texts[1], &texts[2], &texts[3], &texts[4]];
            join5(world, st, v).into_iter().map(Obj::Directional).collect()
        }
        "fspec" => {
            let mut c = ForecastSpectralWaveDataRecordCollection::from_data(t);
            let (m, it) = c.records().map_err(|e| e.to_string())?;
            let mut v: Vec<Obj> = it.map(Obj::Fspec).collect();
            v.push(Obj::FspecMeta(m));
            v
        }
        "spec" => WaveDataRecordCollection::from_data(t).records().map(Obj::Wave).collect(),
        "idx" => GribIndexRecordCollection::from_data(t).records().map(Obj::Idx).collect(),
        "cbull" => {
            let mut c = ForecastCBulletinWaveRecordCollection::from_data(t);
            let (m, it) = c.records().map_err(|e| e.to_string())?;
            let mut v: Vec<Obj> = it.map(Obj::CBull).collect();
            v.push(Obj::CBullMeta(m));
            v
        }
        "tides" => vec![Obj::Tides(TidalDataRecordCollection::from_json(t).map_err(e)?)],
        "tide_stations" => {
            let s = TideStations::from_raw_data(t);
            let mut v: Vec<Obj> = s.stations.iter().take(3).cloned().map(Obj::Station).collect();
            v.push(Obj::Stations(s));
            v
        }
        "gridpoint" => vec![Obj::Grid(NwsGridPointData::from_json(t).map_err(e)?)],
        "weather" => {
            let c = NwsWeatherForecastDataRecordCollection::from_json(t).map_err(e)?;
            let mut v: Vec<Obj> = c.records().into_iter().map(Obj::WeatherRec).collect();
            v.push(Obj::Weather(c));
            v
        }
        _ => SpectralWaveDataRecordCollection::from_data(t).records().map(Obj::Spectral).collect(),
    })
}

/// Compares two debug forms token by token; numbers may differ by round-off.
pub fn same_text(a: &str, b: &str) -> Result<(), String> {
    fn toks(s: &str) -> Vec<&str> {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let st = i;
            if b[i].is_ascii_digit() {
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || (b[i] == b'e' && i + 1 < b.len() && (b[i + 1] == b'-' || b[i + 1].is_ascii_digit())) || (b[i] == b'-' && b[i - 1] == b'e')) {
                    i += 1;
                }
            } else if b[i].is_ascii_alphabetic() {
                while i < b.len() && b[i].is_ascii_alphanumeric() {
                    i += 1;
                }
            } else {
                i += 1;
                while i < b.len() && !s.is_char_boundary(i) {
                    i += 1;
                }
            }
            out.push(&s[st..i]);
        }
        out
    }
    let (x, y) = (toks(a), toks(b));
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        if p == q {
            continue;
        }
        let near = match (p.parse::<f64>(), q.parse::<f64>()) {
            (Ok(m), Ok(n)) => p.contains(['.', 'e']) && q.contains(['.', 'e']) && (m - n).abs() <= 1e-14 * m.abs().max(n.abs()),
            _ => false,
        };
        if !near {
            let ctx = |t: &[&str]| t[i.saturating_sub(12)..(i + 12).min(t.len())].concat();
            return Err(format!("...{}... became ...{}...", ctx(&x), ctx(&y)));
        }
    }
    if x.len() != y.len() {
        return Err(format!("{} tokens became {}", x.len(), y.len()));
    }
    Ok(())
}

/// The quantities (value, unit) of a saved value by path, and the rest of it.
pub fn quantities(v: &Value) -> (Vec<(String, Quantity)>, Value) {
    fn walk(v: &Value, path: &str, out: &mut Vec<(String, Quantity)>) -> Value {
        match v {
            Value::Object(m) if m.contains_key("unit") && m.contains_key("value") && m.contains_key("variable_name") => {
                let unit = m["unit"].as_str().unwrap_or("?").to_string();
                out.push((
                    path.to_string(),
                    Quantity { value: m["value"].as_f64(), other: if m["value"].is_object() { Some(m["value"].to_string()) } else { None }, unit, label: m.get("unit_label").and_then(|l| l.as_str()).unwrap_or("?").to_string(), name: m["variable_name"].to_string() },
                ));
                Value::Null
            }
            Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), walk(x, &format!("{path}.{k}"), out))).collect()),
            Value::Array(a) => Value::Array(a.iter().enumerate().map(|(i, x)| walk(x, &format!("{path}[{i}]"), out)).collect()),
            _ => v.clone(),
        }
    }
    let mut out = vec![];
    let rest = walk(v, "", &mut out);
    (out, rest)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Quantity {
    pub value: Option<f64>,
    pub other: Option<String>,
    pub unit: String,
    pub label: String,
    pub name: String,
}
