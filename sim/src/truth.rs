//! True factors between units, and the unit each system shows.
use surfrs::units::UnitSystem;

pub const SYSTEMS: [UnitSystem; 4] = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];

/// dimension, scale and offset to its base unit
pub fn base(u: &str) -> Option<(&'static str, f64, f64)> {
    Some(match u {
        "Millimeters" => ("length", 0.001, 0.0),
        "Meters" => ("length", 1.0, 0.0),
        "Inches" => ("length", 0.0254, 0.0),
        "Feet" => ("length", 0.3048, 0.0),
        "NauticalMiles" => ("length", 1852.0, 0.0),
        "MetersPerSecond" => ("speed", 1.0, 0.0),
        "MilesPerHour" => ("speed", 0.44704, 0.0),
        "Knots" => ("speed", 1852.0 / 3600.0, 0.0),
        "Pascal" => ("pressure", 1.0, 0.0),
        "HectaPascal" => ("pressure", 100.0, 0.0),
        "InchesMercury" => ("pressure", 3386.389, 0.0),
        "Kelvin" => ("temperature", 1.0, 0.0),
        "Celsius" => ("temperature", 1.0, 273.15),
        "Fahrenheit" => ("temperature", 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        _ => return None,
    })
}

/// The unit shown after asking for a system.
pub fn shown(u: &str, sys: &UnitSystem) -> &'static str {
    use UnitSystem::*;
    match (u, sys) {
        ("Millimeters", English) => "Inches",
        ("Inches", Metric) => "Millimeters",
        ("Meters", English) => "Feet",
        ("Feet", Metric) => "Meters",
        ("MetersPerSecond" | "Knots", English) => "MilesPerHour",
        ("MetersPerSecond" | "MilesPerHour", Knots) => "Knots",
        ("MilesPerHour" | "Knots", Metric) => "MetersPerSecond",
        ("Celsius" | "Kelvin", English) => "Fahrenheit",
        ("Celsius" | "Fahrenheit", Kelvin) => "Kelvin",
        ("Fahrenheit" | "Kelvin", Metric) => "Celsius",
        ("HectaPascal", English) => "InchesMercury",
        ("InchesMercury", Metric) => "HectaPascal",
        _ => NAMES.iter().find(|n| **n == u).copied().unwrap_or("?"),
    }
}
pub const NAMES: [&str; 20] = [
    "Millimeters", "Meters", "MetersPerSecond", "Celsius", "Pascal", "HectaPascal", "Inches", "Feet", "MilesPerHour", "Fahrenheit", "InchesMercury", "Knots", "Kelvin",
    "MetersSquaredPerHertz", "NauticalMiles", "Degrees", "Seconds", "Percent", "KiloJoules", "Unknown",
];

/// Does `v` in `u` equal `o` in `from` by the true factor?
pub fn true_value(o: f64, from: &str, v: f64, u: &str) -> bool {
    if from == u {
        return o == v || (o - v).abs() <= 1e-9 * o.abs().max(v.abs()) || base(u).is_some_and(|b| b.0 == "temperature" && (o - v).abs() < 1e-6);
    }
    let (Some(a), Some(b)) = (base(from), base(u)) else { return false };
    if a.0 != b.0 {
        return false;
    }
    let want = (o * a.1 + a.2 - b.2) / b.1;
    let slack = if a.0 == "temperature" { 0.1 + 1e-9 * want.abs() } else { 1e-3 * want.abs() };
    (v - want).abs() <= slack
}

