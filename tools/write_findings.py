#!/usr/bin/env python3
"""Source of known_findings.json. Only entries with status open suppress anything (by exact signature)."""
import json, os
F = []
def fixed(prop, commit, what):
    F.append(dict(property=prop, status="fixed", commit=commit, what=what, line=f"fixed: property={prop} {commit} {what}"))
def open_(prop, sig, what):
    F.append(dict(property=prop, status="open", signature=sig, what=what))
for p in ("C01", "C02"):
    fixed(p, "9cf62e5", "a short or corrupt wave data row panicked the decoder of the whole feed")
fixed("C01", "a624ea9", "the average period and mean direction of wave data rows were read from the wrong columns")
fixed("C01", "c2bc2f9", "the AVERAGE steepness was read as NA")
fixed("C02", "00fae31", "a spectral data row with an invalid date panicked")
fixed("C02", "c53a97a", "a short grib index row panicked")
fixed("C01", "ac7d024", "a stray quote in a row swallowed the rows after it")
for p in ("C02", "C03"):
    fixed(p, "018f4d7", "corrupt bulletin rows and headers panicked")
fixed("C03", "5dd891a", "bulletin rows past the end of December were dated in January of the same year")
fixed("C02", "f5eaa93", "the swell of a bulletin row without components panicked")
fixed("C04", "0c8c697", "a damaged forecast step lost the intact step after it, panicked, or was delivered with too few energies")
fixed("C06", "735d2c3", "tracking panicked on empty and incomplete steps and gave one id to two components")
for p in ("C07", "C02"):
    fixed(p, "9b43adc", "probable false components came in hash order and panicked on a missing direction")
fixed("C09", "4950371", "temperature and wind-speed conversions were wrong or inconsistent between unit systems")
fixed("C08", "2575f09", "tidal records could not be loaded after being saved")
for p in ("C11", "C02"):
    fixed(p, "a0b9bbf", "a weather document with a wind speed without unit or with a range panicked")
for p in ("C10", "C02"):
    fixed(p, "40e47c8", "a directional record with a measurement shorter than the energies panicked")
fixed("C14", "deab83e", "the energy at the lowest source frequency was dropped when its logarithm rounded down")
fixed("C11", "5bc47a4", "forecasts with a null dewpoint, humidity or chance of precipitation were refused as a whole")
fixed("C11", "6790d6d", "temperatures published in C had an unknown unit")
fixed("C10", "1357b0e", "watershed points whose closest neighbour is point 0 kept no label of a basin")
fixed("C02", "cb50a4a", "swell extraction of a spectrum too small or with NaN energies panicked")
fixed("C10", "e4ae3e6", "each frequency's energy was integrated over the bandwidth of the frequency below it, so heights came out up to 12 % low")
fixed("C10", "7e61620", "the bottom left neighbour was missing, so a single swell system could fall into several partitions")
fixed("C12", "65149ef", "a short or corrupt meteorological row panicked the decoder of the whole feed")
fixed("C12", "75b6b1a", "a short or corrupt latest-observation row panicked the decoder of the whole feed")
fixed("C12", "7e3255e", "whether a listed station has meteorological data was never read from the station list")
fixed("C12", "be86314", "stations that only report tsunami data were called inactive")
fixed("C12", "81213e0", "latest observations were not merged with listed stations, whose ids differ in case")
fixed("C21", "96a6597", "reading a malformed constraint panicked")
fixed("C22", "941b6bf", "places without model values around them got a record of made-up numbers (NaN)")
fixed("C22", "58f6f6a", "directions around a place were averaged as numbers, so north came out as south")
fixed("C22", "15da01e", "cells on the other side of the date line were not found")
fixed("C22", "bea43db", "the nearest cell was looked up with a wrong cell size and from the wrong end")
fixed("C22", "6a10f36", "interpolation between cells took the wrong cells and mixed up rows and columns")
fixed("C23", "84b3e10", "directions listed from high to low or across north had negative or huge bandwidths (heights of 0 m, negative sums; also C10)")
fixed("C23", "82e172f", "a spectrum with a missing value, or with nothing in it, panicked when charted")
fixed("C23", "fc79ffd", "a spectrum of a single frequency or direction panicked")
fixed("C23", "818429e", "contouring an empty spectrum panicked")
fixed("C23", "9c6edf3", "contours lay half a bin off, jumped across the circle beside north, and had no place at the first bin")
fixed("C23", "d3b56de", "the energy between bins was extrapolated from the first bins of all")
fixed("C25", "5149521", "labels and names of several units (m²/Hz, in Hg, miles per hour) were not read as the unit they stand for")
fixed("C01", "423acc2", "the energy of bulletin components was computed from feet with the formula for metres, ten times too much")
fixed("C17", "55f33a2", "where the sun stays up or down all day sunrise and sunset were both at the beginning of 1970")
fixed("C16", "9dd6cde", "distances were not those along the great circle, and NaN for many pairs")
fixed("C16", "86a8264", "boxes across the prime meridian or around the whole circle held no location")
fixed("C15", "1ef892f", "the wavelength was solved with depth times gravity instead of over gravity")
fixed("C15", "c40ef6d", "swells a few degrees off a beach facing north were taken to come from behind it")
fixed("C15", "225c721", "estimating the surf of a swell without height, period or direction panicked")
fixed("C18", "8057eff", "contours of gridded fields lay half a cell off and were stretched")
fixed("C18", "aeec575", "1 degree grids and grids starting at 180 W were not closed at their seam")
open_("C12", "list-panic", "BuoyStations::from_raw_data panics on a damaged or incomplete station list (src/buoy_station.rs, unwrap of the quick-xml error); it returns BuoyStations, not a Result, so refusing without a panic changes its signature")
open_("C21", "history-panic", "StdmetDataRecordCollection::from_data and SwdenWaveDataRecordCollection::from_data panic on an answer that is not whole (unwrap of the readap error in src/data/meteorological_data_record.rs and src/data/swden_wave_data_record.rs); they return the collection, not a Result, so refusing without a panic changes their signatures")
open_("C02", "tide stations refused by panic", "TideStations::from_raw_data panics on a document that is not complete JSON of the expected shape (src/tide_station.rs, unwrap of the serde_json error); it returns TideStations, not a Result, so refusing without a panic changes its signature")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
with open(out, "w") as f:
    json.dump(dict(findings=F), f, indent=1)
    f.write("\n")
