#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "source/"
G = "source/gradient_crystal_plasticity/"
I = "include/gCP/"
A = "applications/simple_shear.cc"
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None,
         observe=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w}
                            for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


prop("P01", "Crystal data: rotations, slip systems and rejection of bad input",
     "For every valid set of Euler angles and slip systems read from files, each crystal's rotation is the proper orthogonal z-x-z (2d: z) rotation by its angles in degrees, its slip directions, normals and orthogonals are the normalised reference vectors rotated by it and form an orthonormal basis, and its Schmid tensors are their (symmetrised) dyads. "
     "Files with wrong column counts, non-numeric entries, non-orthogonal or unequally many slip vectors, or a number of crystals different from the mesh are rejected, and nothing can be read before initialisation.",
     ["inputs"], "every orientation, slip system set, grain-to-cell assignment and file spelling, 2d and 3d",
     "crystal_data_test prints the data of one fixed crystal set per dimension and only fails on a crash; nothing checks values for other inputs.",
     [S + "crystal_data.cc", I + "crystal_data.h"],
     [("reading and checking of the input files", "CrystalsData::read_and_store_data"),
      ("rotation tensors", "CrystalsData::compute_rotation_matrices"),
      ("slip systems", "CrystalsData::compute_slip_systems"),
      ("Schmid tensors", "CrystalsData::compute_schmid_tensors")])

prop("P02", "Strain split, cubic elasticity and resolved stresses are exact",
     "The plastic strain is the slip-weighted sum of the symmetrised Schmid tensors, and the elastic strain is the total strain minus it (scaled by the reference strain in dimensionless form). "
     "The stress is the cubic elastic response in the rotated crystal frame: linear, frame-indifferent, symmetric and with positive energy for stable moduli. "
     "Resolved stresses are the stress contracted with each Schmid tensor, so that they are power conjugate to the plastic strain.",
     ["inputs"], "every strain, slip vector, orientation, slip system set, stable moduli and characteristic stiffness, 2d and 3d",
     "constitutive_laws_test does not run (not a stable test) and compares nothing; the identities hold for all tensors, not for a sample.",
     [S + "constitutive_laws.cc", I + "constitutive_laws.h"],
     [("strain split", "ConstitutiveLaws::ElasticStrain"),
      ("rotated stiffness", "ConstitutiveLaws::HookeLaw"),
      ("resolved stresses", "ConstitutiveLaws::ResolvedShearStressLaw")])

prop("P03", "Scalar microstress is regularised, odd, monotone and dissipative",
     "For every slip increment, the scalar microstress of a slip system is its slip resistance times the chosen regularisation of the slip rate: odd, monotone, bounded by the slip resistance, with non-negative dissipation. "
     "Its tangent is symmetric where it has to be and is the derivative of the microstress, hardening included.",
     ["inputs"], "every regularisation, regularisation parameter, slip increment over many decades, time step and slip resistance",
     "No test evaluates the law; oddness, monotonicity and consistency of the tangent range over all rates and both signs.",
     [S + "constitutive_laws.cc"],
     [("microstress", "ScalarMicrostressLaw::get_scalar_microstress"),
      ("tangent", "ScalarMicrostressLaw::get_jacobian"),
      ("regularisation", "ScalarMicrostressLaw::get_regularization_factor")])

prop("P04", "Vectorial microstress is the gradient of the defect energy",
     "For every slip gradient, the vectorial microstress is the derivative of the defect energy with respect to it: homogeneous, odd, without a component along the slip normal, finite also at zero gradient, and its tangent is the symmetric positive semidefinite derivative of it.",
     ["inputs"], "every slip gradient (zero, tiny, large), crystal, energetic length and defect energy index, dimensionless or not, 2d and 3d",
     "No test evaluates the law; a singular exponent at zero gradient only appears for special inputs.",
     [S + "constitutive_laws.cc"],
     [("microstress", "VectorialMicrostressLaw::get_vectorial_microstress"),
      ("tangent", "VectorialMicrostressLaw::get_jacobian")])

prop("P05", "Slip resistances harden linearly, irreversibly and can be rolled back",
     "Within a step the slip resistances are those stored at the last accepted step plus the hardening moduli times the accumulated absolute slip increments, whatever trial updates happened before. "
     "Storing makes the current values the stored ones and resetting restores the stored ones exactly, so slip resistances never decrease over accepted steps.",
     ["histories", "inputs"], "every sequence of trial updates, stores and resets, every hardening matrix parameter and slip increment",
     "quadrature_point_history_test is not a stable test and walks one fixed sequence; the statement is over all histories.",
     [G + "quadrature_point_history.cc", I + "quadrature_point_history.h"],
     [("update", "QuadraturePointHistory::update_values"),
      ("store and reset", "QuadraturePointHistory::store_current_values / reset_values")],
     [("slip resistances", "current and stored", "QuadraturePointHistory")])

prop("P06", "Grain boundary microtractions derive from the Burgers mismatch energy",
     "At every grain boundary point the microtractions are the derivatives of the grain boundary energy, which is half the modulus times the squared norm of the mismatch of the net Burgers density of both sides, and is never negative. "
     "The interaction moduli are reciprocal between the sides, the energy does not depend on the side it is evaluated from, and the tangents are the derivatives.",
     ["inputs"], "every pair of crystals, facet normal, slips on both sides, modulus, 2d and 3d",
     "No test evaluates the law; the relations hold for all pairs of lattices.",
     [S + "constitutive_laws.cc"],
     [("microtraction", "MicrotractionLaw::get_microtraction"),
      ("interaction moduli", "MicrotractionLaw::get_grain_interaction_moduli"),
      ("energy", "MicrotractionLaw::get_free_energy_density")])

prop("P07", "Cohesive law: exponential envelope, secant unloading, exact tangent",
     "For every opening of an interface, the cohesive traction on loading follows the exponential law in the effective opening (compression does not count) and never exceeds the critical traction; below the maximum opening reached it unloads on the secant to the origin. "
     "The traction is continuous at the maximum, independent of which side evaluates it, the derivative of the free energy, and the tangent is its derivative.",
     ["inputs"], "every opening vector, normal, maximum opening, critical traction and opening, ratio of tangential to normal stiffness and characteristic scales",
     "No test evaluates the law; the loading/unloading switch and mixed mode make the input space large.",
     [S + "constitutive_laws.cc"],
     [("traction", "CohesiveLaw::get_cohesive_traction"),
      ("tangent", "CohesiveLaw::get_jacobian"),
      ("effective opening", "CohesiveLaw::get_effective_opening_displacement")])

prop("P08", "Contact acts only in compression; damage degrades from one to zero",
     "The contact traction is the penalty stiffness times the penetration along the normal and zero for an open interface, equal and opposite on the two sides, with the tangent being its derivative. "
     "The degradation function falls monotonically from one (undamaged) to zero (fully damaged) and its derivative is consistent; where degradation is switched off it is constantly one.",
     ["inputs"], "every opening, normal, penalty, damage value and degradation exponent",
     "No test evaluates either function.",
     [S + "constitutive_laws.cc"],
     [("contact", "ContactLaw::get_contact_traction / get_jacobian"),
      ("degradation", "DegradationFunction")])

prop("P09", "Interface damage is irreversible and follows its evolution law",
     "Over every history of openings, the damage of an interface point stays in [0,1], never decreases over accepted steps, equals the value of its evolution law applied to the accepted steps, and does not grow by unloading, compression or below its endurance limit. "
     "Trial steps that are rolled back leave no trace, and the maximum effective opening is the largest one of the accepted steps.",
     ["histories", "inputs"], "every sequence of openings (tension, shear, compression), trial updates, resets and accepted steps, for each damage evolution",
     "quadrature_point_history_test is not a stable test and drives one monotonic opening.",
     [G + "quadrature_point_history.cc", I + "quadrature_point_history.h"],
     [("damage update", "InterfaceQuadraturePointHistory::update_values"),
      ("store and reset", "InterfaceQuadraturePointHistory::store_current_values / store_effective_opening_displacement / reset_values")],
     [("damage, maximum and accepted opening", "of one interface point", "InterfaceQuadraturePointHistory")])

prop("P10", "Both sides of a grain boundary face share one set of point data",
     "On every mesh, each face between two different grains has exactly one set of interface quadrature point data, the same seen from either cell, distinct from that of every other face and point; faces inside a grain and at the external boundary have none. "
     "Values written are read back unchanged, also after the storage is initialised again.",
     ["inputs", "histories"], "every mesh and every assignment of cells to grains",
     "No stable test touches the interface storage.",
     [I + "quadrature_point_history.h", G + "quadrature_point_history.cc"],
     [("storage", "InterfaceDataStorage::initialize / get_data")])

exec(open(os.path.join(ROOT, "tools", "properties_fe.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
