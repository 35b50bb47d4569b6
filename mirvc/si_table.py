"""Independent oracle for C16/C17/C18: the SI as published (SI brochure 9th ed., CODATA 2018), written
from the literature and not from src/si.rs.  Dimensions are written in coherent SI base units."""
from fractions import Fraction as Fr
import re

BASE = {'m': 'length', 's': 'time', 'kg': 'mass', 'K': 'temperature', 'A': 'current', 'mol': 'amount_of_substance', 'cd': 'luminous_intensity'}
FIELDS = list(BASE.values())
BASE_ORDER = ['Length', 'Time', 'Mass', 'Temperature', 'Current', 'AmountOfSubstance', 'LuminousIntensity']


def dims(txt):
    d = {}
    for f in txt.split():
        m = re.fullmatch(r'([A-Za-z]+)(-?\d+)?', f)
        k = BASE[m.group(1)]
        d[k] = d.get(k, 0) + int(m.group(2) or 1)
    return {k: v for k, v in d.items() if v}


PREFIX = [('exa', 'E', 18), ('peta', 'P', 15), ('tera', 'T', 12), ('giga', 'G', 9), ('mega', 'M', 6), ('kilo', 'k', 3), ('hecto', 'h', 2), ('deca', 'da', 1),
          ('deci', 'd', -1), ('centi', 'c', -2), ('milli', 'm', -3), ('micro', 'μ', -6), ('nano', 'n', -9), ('pico', 'p', -12), ('femto', 'f', -15), ('atto', 'a', -18)]

PI = Fr('3.14159265358979323846264338327950288')
# (names, symbol, prefixed, dimension, value in coherent SI units)
UNITS = [
    ('meter metre metres meters', 'm', 1, 'm', 1), ('second seconds', 's', 1, 's', 1), ('kilogram kilograms', 'kg', 0, 'kg', 1),
    ('gram grams', 'g', 'kilo', 'kg', Fr(1, 1000)), ('ampere amperes', 'A', 1, 'A', 1), ('kelvin kelvins', 'K', 1, 'K', 1),
    ('mole moles', 'mol', 1, 'mol', 1), ('candela candelas', 'cd', 1, 'cd', 1),
    ('radian radians', 'rad', 1, '', 1), ('steradian steradians', 'sr', 1, '', 1), ('hertz', 'Hz', 1, 's-1', 1),
    ('newton newtons', 'N', 1, 'kg m s-2', 1), ('pascal pascals', 'Pa', 1, 'kg m-1 s-2', 1), ('joule joules', 'J', 1, 'kg m2 s-2', 1),
    ('watt watts', 'W', 1, 'kg m2 s-3', 1), ('coulomb coulombs', 'C', 1, 'A s', 1), ('volt volts', 'V', 1, 'kg m2 s-3 A-1', 1),
    ('farad farads', 'F', 1, 'kg-1 m-2 s4 A2', 1), ('ohm ohms', 'Ω', 1, 'kg m2 s-3 A-2', 1), ('siemens', 'S', 1, 'kg-1 m-2 s3 A2', 1),
    ('weber webers', 'Wb', 1, 'kg m2 s-2 A-1', 1), ('tesla teslas', 'T', 1, 'kg s-2 A-1', 1), ('henry henrys', 'H', 1, 'kg m2 s-2 A-2', 1),
    ('lumen lumens', 'lm', 1, 'cd', 1), ('lux', 'lx', 1, 'cd m-2', 1), ('becquerel becquerels', 'Bq', 1, 's-1', 1),
    ('gray grays', 'Gy', 1, 'm2 s-2', 1), ('sievert sieverts', 'Sv', 1, 'm2 s-2', 1), ('katal katals', 'kat', 1, 'mol s-1', 1),
    ('minute minutes', 'min', 0, 's', 60), ('hour hours', 'h', 0, 's', 3600), ('day days', 'day', 0, 's', 86400),
    ('astronomicalunit astronomicalunits', 'au', 0, 'm', 149597870700), ('degree degrees', 'deg', 0, '', PI / 180),
    ('arcminute arcminutes', None, 0, '', PI / 10800), ('arcsecond arcseconds', None, 0, '', PI / 648000),
    ('are ares', None, 0, 'm2', 100), ('hectare hectares', 'ha', 0, 'm2', 10000), ('litre litres', 'l', 1, 'm3', Fr(1, 1000)),
    ('tonne tonnes', None, 1, 'kg', 1000), ('dalton daltons', 'Da', 0, 'kg', Fr('1.66053906660e-27')), ('electronvolt electronvolts', 'eV', 1, 'kg m2 s-2', Fr('1.602176634e-19')),
    ('joule_per_kilogram joules_per_kilogram', None, 1, 'm2 s-2', 1), ('joule_per_kilogram_kelvin joules_per_kilogram_kelvin', None, 1, 'm2 s-2 K-1', 1),
    ('meter_per_second meters_per_second', None, 1, 'm s-1', 1), ('square_meter square_metre square_meters square_metres', None, 0, 'm2', 1),
    ('cubic_meter cubic_metre cubic_meters cubic_metres', None, 0, 'm3', 1),
]
CONSTANTS = {'PI': ('', PI)}
DIMENSIONS = {
    'Length': 'm', 'Time': 's', 'Mass': 'kg', 'Temperature': 'K', 'Current': 'A', 'AmountOfSubstance': 'mol', 'LuminousIntensity': 'cd',
    'Dimensionless': '', 'Angle': '', 'SolidAngle': '', 'Area': 'm2', 'Volume': 'm3', 'Wavenumber': 'm-1', 'Frequency': 's-1', 'Velocity': 'm s-1',
    'Acceleration': 'm s-2', 'Jerk': 'm s-3', 'FlowRate': 'm3 s-1', 'Momentum': 'kg m s-1', 'Force': 'kg m s-2', 'Energy': 'kg m2 s-2', 'Power': 'kg m2 s-3',
    'Pressure': 'kg m-1 s-2', 'Action': 'kg m2 s-1', 'MassDensity': 'kg m-3', 'MomentOfInertia': 'kg m2', 'AngularMomentum': 'kg m2 s-1', 'Torque': 'kg m2 s-2',
    'EnergyDensity': 'kg m-1 s-2', 'MassFlow': 'kg s-1', 'ElectricCharge': 'A s', 'Voltage': 'kg m2 s-3 A-1', 'Capacitance': 'kg-1 m-2 s4 A2',
    'ElectricResistance': 'kg m2 s-3 A-2', 'Resistivity': 'kg m3 s-3 A-2', 'ElectricConductance': 'kg-1 m-2 s3 A2', 'Conductivity': 'kg-1 m-3 s3 A2',
    'MagneticFluxDensity': 'kg s-2 A-1', 'MagneticFlux': 'kg m2 s-2 A-1', 'MagneticFieldStrength': 'A m-1', 'Inductance': 'kg m2 s-2 A-2',
    'ElectricChargeDensity': 'A s m-3', 'CurrentDensity': 'A m-2', 'ElectricDipoleMoment': 'A s m', 'ElectricQuadrupoleMoment': 'A s m2',
    'MagneticDipoleMoment': 'A m2', 'ElectricFieldStrength': 'kg m s-3 A-1', 'ElectricDisplacementFieldStrength': 'A s m-2',
    'ElectricPermittivity': 'kg-1 m-3 s4 A2', 'MagneticPermeability': 'kg m s-2 A-2', 'Polarizability': 'A2 s4 kg-1', 'ElectricMobility': 'kg-1 s2 A',
    'Entropy': 'kg m2 s-2 K-1', 'HeatCapacity': 'kg m2 s-2 K-1', 'SpecificHeatCapacity': 'm2 s-2 K-1', 'ThermalConductivity': 'kg m s-3 K-1',
    'ThermalTransmittance': 'kg s-3 K-1', 'MolarMass': 'kg mol-1', 'MolarVolume': 'm3 mol-1', 'CatalyticActivity': 'mol s-1', 'Molarity': 'mol m-3',
    'Molality': 'mol kg-1', 'ChemicalPotential': 'kg m2 s-2 mol-1', 'MolarHeatCapacity': 'kg m2 s-2 K-1 mol-1', 'LuminousFlux': 'cd', 'Illuminance': 'cd m-2',
    'Irradiance': 'kg s-3', 'Activity': 's-1', 'AbsorbedDose': 'm2 s-2', 'EquivalentDose': 'm2 s-2', 'SpecificActivity': 's-1 kg-1', 'DynamicViscosity': 'kg m-1 s-1',
    'KinematicViscosity': 'm2 s-1', 'MomentumDensity': 'kg m-2 s-1', 'SpecificEnergy': 'm2 s-2', 'MassFlux': 'kg m-2 s-1', 'EnergyFlux': 'kg s-3',
}


def all_units():
    """{name: (dims, value, symbol|None)} with prefixes and aliases expanded"""
    out = {}
    for names, sym, pre, d, v in UNITS:
        ns = names.split()
        for p, ps, e in [('', '', 0)] + (PREFIX if pre else []):
            if pre == p:
                continue
            for i, n in enumerate(ns):
                nm = p + n
                assert nm not in out, nm
                out[nm] = (dims(d), Fr(v) * Fr(10) ** e, (ps + sym) if sym and i == 0 else None)
    return out


def symbols():
    out = {}
    for n, (d, v, s) in all_units().items():
        if s:
            assert s not in out, (s, n, out[s])
            out[s] = (d, v, n)
    return out


if __name__ == '__main__':
    print(len(all_units()), len(symbols()), len(DIMENSIONS))
