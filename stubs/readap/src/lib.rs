//! Stand-in for readap (OPeNDAP client), which cannot be had offline: reads the DODS responses of NDBC's
//! thredds server (grids of 32-bit integers and 32- or 64-bit floats with their maps), as far as surfrs needs it.
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    ParseError,
    NotFound,
    WrongType,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DataType {
    Int32,
    Float32,
    Float64,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DataValue {
    Int32(i32),
    Float32(f32),
    Float64(f64),
}
impl TryFrom<DataValue> for f64 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<f64, Error> {
        Ok(match v {
            DataValue::Int32(x) => x as f64,
            DataValue::Float32(x) => x as f64,
            DataValue::Float64(x) => x,
        })
    }
}
impl TryFrom<DataValue> for i64 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<i64, Error> {
        match v {
            DataValue::Int32(x) => Ok(x as i64),
            _ => Err(Error::WrongType),
        }
    }
}
impl TryFrom<DataValue> for i32 {
    type Error = Error;
    fn try_from(v: DataValue) -> Result<i32, Error> {
        match v {
            DataValue::Int32(x) => Ok(x),
            _ => Err(Error::WrongType),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct DataArray(pub Vec<DataValue>);
impl DataArray {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
impl TryFrom<DataArray> for Vec<f64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Vec<f64>, Error> {
        v.0.into_iter().map(f64::try_from).collect()
    }
}
impl TryFrom<DataArray> for Vec<i64> {
    type Error = Error;
    fn try_from(v: DataArray) -> Result<Vec<i64>, Error> {
        v.0.into_iter().map(i64::try_from).collect()
    }
}

#[derive(Debug, Clone)]
struct Var<'a> {
    name: &'a str,
    ty: DataType,
    at: usize,
    len: usize,
}
#[derive(Debug, Clone)]
struct Grid<'a> {
    array: Var<'a>,
    maps: Vec<Var<'a>>,
}
#[derive(Debug, Clone)]
pub struct DodsDataset<'a> {
    pub name: String,
    data: &'a [u8],
    grids: Vec<Grid<'a>>,
}

const MARK: &[u8] = b"\nData:\n";

fn declaration<'a>(line: &'a str, at: &mut usize) -> Result<Var<'a>, Error> {
    let (ty, rest) = line.trim().split_once(' ').ok_or(Error::ParseError)?;
    let (ty, size) = match ty {
        "Int32" => (DataType::Int32, 4),
        "Float32" => (DataType::Float32, 4),
        "Float64" => (DataType::Float64, 8),
        _ => return Err(Error::ParseError),
    };
    let rest = rest.strip_suffix(';').ok_or(Error::ParseError)?;
    let mut parts = rest.split('[');
    let name = parts.next().ok_or(Error::ParseError)?;
    let mut len = 1usize;
    for p in parts {
        let n = p.trim_end_matches(']').rsplit("= ").next().ok_or(Error::ParseError)?;
        len = len.checked_mul(n.trim().parse().map_err(|_| Error::ParseError)?).ok_or(Error::ParseError)?;
    }
    // an array is preceded by its length, twice
    let v = Var { name, ty, at: at.checked_add(8).ok_or(Error::ParseError)?, len };
    *at = len.checked_mul(size).and_then(|n| n.checked_add(v.at)).ok_or(Error::ParseError)?;
    Ok(v)
}

impl<'a> DodsDataset<'a> {
    pub fn from_bytes(bytes: &'a [u8]) -> Result<Self, Error> {
        let cut = bytes.windows(MARK.len()).position(|w| w == MARK).ok_or(Error::ParseError)?;
        let dds = std::str::from_utf8(&bytes[..cut]).map_err(|_| Error::ParseError)?;
        let data = &bytes[cut + MARK.len()..];
        let mut at = 0;
        let mut grids = vec![];
        let mut vars: Vec<Var<'a>> = vec![];
        let mut name = String::new();
        for line in dds.lines() {
            let l = line.trim();
            if l.starts_with("Int") || l.starts_with("Float") {
                let v = declaration(l, &mut at)?;
                if v.at + v.len * if v.ty == DataType::Float64 { 8 } else { 4 } > data.len() {
                    return Err(Error::ParseError);
                }
                let head = |i: usize| u32::from_be_bytes(data[v.at - 8 + i..v.at - 4 + i].try_into().unwrap()) as usize;
                if head(0) != v.len || head(4) != v.len {
                    return Err(Error::ParseError);
                }
                vars.push(v);
            } else if let Some(n) = l.strip_prefix('}') {
                if vars.is_empty() {
                    name = n.trim().trim_end_matches(';').into();
                } else {
                    let array = vars.remove(0);
                    grids.push(Grid { array, maps: std::mem::take(&mut vars) });
                }
            }
        }
        if !vars.is_empty() {
            return Err(Error::ParseError);
        }
        Ok(DodsDataset { name, data, grids })
    }
    fn values(&self, v: &Var) -> DataArray {
        DataArray(
            (0..v.len)
                .map(|i| match v.ty {
                    DataType::Int32 => DataValue::Int32(i32::from_be_bytes(self.data[v.at + 4 * i..v.at + 4 * i + 4].try_into().unwrap())),
                    DataType::Float32 => DataValue::Float32(f32::from_be_bytes(self.data[v.at + 4 * i..v.at + 4 * i + 4].try_into().unwrap())),
                    DataType::Float64 => DataValue::Float64(f64::from_be_bytes(self.data[v.at + 8 * i..v.at + 8 * i + 8].try_into().unwrap())),
                })
                .collect(),
        )
    }
    fn grid(&self, variable: &str) -> Result<&Grid<'a>, Error> {
        self.grids.iter().find(|g| g.array.name == variable).ok_or(Error::NotFound)
    }
    pub fn variables(&self) -> Vec<String> {
        self.grids.iter().map(|g| g.array.name.to_string()).collect()
    }
    pub fn variable_coords(&self, variable: &str) -> Result<Vec<(String, DataArray)>, Error> {
        Ok(self.grid(variable)?.maps.iter().map(|m| (m.name.to_string(), self.values(m))).collect())
    }
    pub fn variable_data(&self, variable: &str) -> Result<DataArray, Error> {
        Ok(self.values(&self.grid(variable)?.array))
    }
    pub fn variable_data_iter(&self, variable: &str) -> Result<std::vec::IntoIter<DataValue>, Error> {
        Ok(self.variable_data(variable)?.0.into_iter())
    }
}
