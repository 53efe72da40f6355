//! Stand-in for gribberish (GRIB2 decoder), which cannot be had offline: the part of its interface that
//! surfrs uses, over messages that the simulated models publish.  It decodes no GRIB2; `read_messages`
//! reads the simulator's own encoding (`Message::to_bytes`).

#[macro_export]
macro_rules! unwrap_or_return {
    ($e:expr, $m:expr) => {
        match $e {
            Some(v) => v,
            None => return Err($m),
        }
    };
}

pub mod error {
    use std::fmt;
    #[derive(Debug, Clone, PartialEq)]
    pub enum GribberishError {
        DataError(String),
        MessageError(String),
        JpegError(String),
    }
    impl fmt::Display for GribberishError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                GribberishError::DataError(m) => write!(f, "Data error: {m}"),
                GribberishError::MessageError(m) => write!(f, "Message error: {m}"),
                GribberishError::JpegError(m) => write!(f, "Jpeg error: {m}"),
            }
        }
    }
    impl std::error::Error for GribberishError {}
}

pub mod templates {
    pub mod product {
        pub mod tables {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum FixedSurfaceType {
                GroundOrWater,
                CloudBase,
                MeanSeaLevel,
                SpecifiedHeightLevelAboveGround,
                OrderedSequence,
                Missing,
            }
        }
    }
}

pub mod utils {
    pub mod iter {
        pub mod projection {
            /// A regular latitude and longitude grid, rows from the first latitude to the last.
            #[derive(Debug, Clone, PartialEq)]
            pub struct LatLngProjection {
                pub lat: Vec<f64>,
                pub lng: Vec<f64>,
            }
            impl LatLngProjection {
                pub fn is_regular_latlng(&self) -> bool {
                    true
                }
                /// (smallest longitude, smallest latitude, largest longitude, largest latitude)
                pub fn bbox(&self) -> (f64, f64, f64, f64) {
                    let ends = |v: &Vec<f64>| (v.iter().copied().fold(f64::INFINITY, f64::min), v.iter().copied().fold(f64::NEG_INFINITY, f64::max));
                    let ((a, b), (c, d)) = (ends(&self.lng), ends(&self.lat));
                    (a, c, b, d)
                }
                /// The grid's latitudes and its longitudes.
                pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) {
                    (self.lat.clone(), self.lng.clone())
                }
                pub fn latlng_start(&self) -> (f64, f64) {
                    (self.lat[0], self.lng[0])
                }
                pub fn latlng_end(&self) -> (f64, f64) {
                    (self.lat[self.lat.len() - 1], self.lng[self.lng.len() - 1])
                }
            }
        }
    }
}

pub mod message {
    use crate::error::GribberishError;
    use crate::templates::product::tables::FixedSurfaceType;
    use crate::utils::iter::projection::LatLngProjection;
    use chrono::{DateTime, TimeZone, Utc};
    use std::borrow::Cow;

    type Res<T> = Result<T, GribberishError>;

    /// What one message says; `None` where the section carrying it is damaged.
    #[derive(Debug, Clone, PartialEq)]
    pub struct Message<'a> {
        pub reference: Option<i64>,
        pub valid: Option<i64>,
        pub abbrev: Option<Cow<'a, str>>,
        pub unit: Option<Cow<'a, str>>,
        pub surface: Option<(FixedSurfaceType, Option<f64>)>,
        pub grid: Option<LatLngProjection>,
        pub values: Option<Vec<f64>>,
    }

    fn need<T: Clone>(v: &Option<T>, what: &str) -> Res<T> {
        v.clone().ok_or_else(|| GribberishError::MessageError(format!("{what} section damaged")))
    }
    fn when(v: &Option<i64>) -> Res<DateTime<Utc>> {
        need(v, "time").and_then(|t| Utc.timestamp_opt(t, 0).single().ok_or_else(|| GribberishError::MessageError("time out of range".into())))
    }

    impl<'a> Message<'a> {
        pub fn reference_date(&self) -> Res<DateTime<Utc>> {
            when(&self.reference)
        }
        pub fn forecast_date(&self) -> Res<DateTime<Utc>> {
            when(&self.valid)
        }
        pub fn variable_abbrev(&self) -> Res<String> {
            need(&self.abbrev, "product").map(|s| s.into_owned())
        }
        pub fn variable_name(&self) -> Res<String> {
            self.variable_abbrev()
        }
        pub fn unit(&self) -> Res<String> {
            need(&self.unit, "product").map(|s| s.into_owned())
        }
        pub fn first_fixed_surface(&self) -> Res<(FixedSurfaceType, Option<f64>)> {
            need(&self.surface, "product")
        }
        pub fn latlng_projector(&self) -> Res<LatLngProjection> {
            need(&self.grid, "grid")
        }
        /// (latitudes, longitudes)
        pub fn grid_dimensions(&self) -> Res<(usize, usize)> {
            let g = need(&self.grid, "grid")?;
            Ok((g.lat.len(), g.lng.len()))
        }
        pub fn data(&self) -> Res<Vec<f64>> {
            need(&self.values, "data")
        }
    }
}
