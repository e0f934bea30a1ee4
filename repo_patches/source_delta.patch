From 840365c975c703ffbcd52e2a8fa21853dbe3c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 01/55] fix: Schur complement and linear solver messages
 respect print level none

---
 src/SQProblemSchur.cpp | 7253 ++++++++++++++++++++--------------------
 1 file changed, 3629 insertions(+), 3624 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..02cb09c 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1,3624 +1,3629 @@
-/*
- *	This file is part of qpOASES.
- *
- *	qpOASES -- An Implementation of the Online Active Set Strategy.
- *	Copyright (C) 2007-2014 by Hans Joachim Ferreau, Andreas Potschka,
- *	Christian Kirches et al. All rights reserved.
- *
- *	qpOASES is free software; you can redistribute it and/or
- *	modify it under the terms of the GNU Lesser General Public
- *	License as published by the Free Software Foundation; either
- *	version 2.1 of the License, or (at your option) any later version.
- *
- *	qpOASES is distributed in the hope that it will be useful,
- *	but WITHOUT ANY WARRANTY; without even the implied warranty of
- *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
- *	See the GNU Lesser General Public License for more details.
- *
- *	You should have received a copy of the GNU Lesser General Public
- *	License along with qpOASES; if not, write to the Free Software
- *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
- *
- */
-
-
-/**
- *	\file src/SQProblemSchur.cpp
- *	\author Andreas Waechter and Dennis Janka, based on QProblem.cpp by Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
- *	\version 3.2
- *	\date 2012-2017
- *
- *	Implementation of the SQProblemSchur class which is able to use the newly
- *	developed online active set strategy for parametric quadratic programming.
- *	This implementation uses a Schur complement approach to solve the linear
- *	systems.
- */
-
-#include <qpOASES/SQProblemSchur.hpp>
-#include <qpOASES/LapackBlasReplacement.hpp>
-
-
-#ifndef __MATLAB__
-# include <cstdarg>
-void MyPrintf(const char* pformat, ... )
-{
-  va_list ap;
-  va_start(ap, pformat);
-
-  vfprintf(stdout, pformat, ap);
-
-  va_end(ap);
-}
-#else
-# include <mex.h>
-# define MyPrintf mexPrintf
-#endif
-
-
-BEGIN_NAMESPACE_QPOASES
-
-
-/*****************************************************************************
- *  P U B L I C                                                              *
- *****************************************************************************/
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( ) : SQProblem( )
-{
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-
-	nSmax = 0;
-	nS = -1;
-	S = 0;
-	Q_ = 0;
-	R_ = 0;
-	detS = 0.0;
-	rcondS = 0.0;
-	schurUpdateIndex = 0;
-	schurUpdate = 0;
-	numFactorizations = 0;
-
-	M_physicallength = 0;
-	M_vals = 0;
-	M_ir = 0;
-	M_jc = 0;
-}
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( int_t _nV, int_t _nC, HessianType _hessianType, int_t maxSchurUpdates ) 
-	: SQProblem( _nV,_nC,_hessianType, BT_FALSE )
-{
-	/* The interface to the sparse linear solver.  In the long run,
-	   different linear solvers might be optionally chosen. */
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-
-	nSmax = maxSchurUpdates;
-	nS = -1;
-	if ( nSmax > 0 )
-	{
-		S = new real_t[nSmax*nSmax];
-		schurUpdateIndex = new int_t[nSmax];
-		schurUpdate = new SchurUpdateType[nSmax];
-		Q_ = new real_t[nSmax*nSmax];
-		R_ = new real_t[nSmax*nSmax];
-		M_physicallength = 10*nSmax;  /* TODO: Decide good default. */
-		M_vals = new real_t[M_physicallength];
-		M_ir = new sparse_int_t[M_physicallength];
-		M_jc = new sparse_int_t[nSmax+1];
-		detS = 1.0;
-		rcondS = 1.0;
-	}
-	else
-	{
-		S = 0;
-		Q_ = 0;
-		R_ = 0;
-		detS = 0.0;
-		rcondS = 0.0;
-		schurUpdateIndex = 0;
-		schurUpdate = 0;
-		M_physicallength = 0;
-		M_vals = 0;
-		M_ir = 0;
-		M_jc = 0;
-	}
-	numFactorizations = 0;
-}
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( const SQProblemSchur& rhs ) : SQProblem( rhs )
-{
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-	copy( rhs );
-}
-
-
-/*
- *	~ Q P r o b l e m
- */
-SQProblemSchur::~SQProblemSchur( )
-{
-	delete sparseSolver;
-
-	clear( );
-}
-
-
-/*
- *	o p e r a t o r =
- */
-SQProblemSchur& SQProblemSchur::operator=( const SQProblemSchur& rhs )
-{
-	if ( this != &rhs )
-	{
-		clear( );
-		SQProblem::operator=( rhs );
-		copy( rhs );
-	}
-	return *this;
-}
-
-
-/*
- *	r e s e t
- */
-returnValue SQProblemSchur::reset( )
-{
-	/* AW: We probably want to avoid resetting factorization in QProblem */
-	if ( SQProblem::reset( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_RESET_FAILED );
-
-	sparseSolver->reset();
-	nS = -1;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*****************************************************************************
- *  P R O T E C T E D                                                        *
- *****************************************************************************/
-
-/*
- *	c l e a r
- */
-returnValue SQProblemSchur::clear( )
-{
-	nSmax = 0;
-	nS = -1;
-	detS = 0.0;
-	rcondS = 0.0;
-	numFactorizations = 0;
-	delete [] S; S=0;
-	delete [] Q_; Q_=0;
-	delete [] R_; R_=0;
-	delete [] schurUpdateIndex; schurUpdateIndex=0;
-	delete [] schurUpdate; schurUpdate=0;
-	M_physicallength = 0;
-	delete [] M_vals; M_vals=0;
-	delete [] M_ir; M_ir=0;
-	delete [] M_jc; M_jc=0;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	c o p y
- */
-returnValue SQProblemSchur::copy(	const SQProblemSchur& rhs
-									)
-{
-	int_t i, j, length;
-
-	*sparseSolver = *(rhs.sparseSolver);
-
-	nS = rhs.nS;
-	nSmax = rhs.nSmax;
-	if ( nSmax > 0 )
-	{
-		detS = rhs.detS;
-		rcondS = rhs.rcondS;
-		S = new real_t[nSmax*nSmax];
-		Q_ = new real_t[nSmax*nSmax];
-		R_ = new real_t[nSmax*nSmax];
-		schurUpdateIndex = new int_t[nSmax];
-		schurUpdate = new SchurUpdateType[nSmax];
-
-		if ( nS>0 )
-		{
-			for ( i=0; i<nS; i++)
-				for ( j=0; j<nS; j++)
-				{
-					S[i*nSmax + j] = rhs.S[i*nSmax + j];
-					Q_[i*nSmax + j] = rhs.Q_[i*nSmax + j];
-					R_[i*nSmax + j] = rhs.R_[i*nSmax + j];
-				}
-
-			memcpy( schurUpdateIndex, rhs.schurUpdateIndex, ((unsigned int)nS)*sizeof(int_t));
-			memcpy( schurUpdate, rhs.schurUpdate, ((unsigned int)nS)*sizeof(SchurUpdateType));
-		}
-
-		M_physicallength = rhs.M_physicallength;
-		if ( M_physicallength>0 )
-		{
-			M_vals = new real_t[M_physicallength];
-			M_ir = new sparse_int_t[M_physicallength];
-			M_jc = new sparse_int_t[nSmax+1];
-
-			if ( nS>0 )
-			{
-				memcpy(M_jc, rhs.M_jc, ((unsigned int)(nS+1))*sizeof(sparse_int_t));
-				length = M_jc[nS];
-				memcpy(M_vals, rhs.M_vals, ((unsigned int)length)*sizeof(real_t));
-				memcpy(M_ir, rhs.M_ir, ((unsigned int)length)*sizeof(sparse_int_t));
-			}
-			else if ( nS==0 )
-				M_jc[0] = rhs.M_jc[0];
-		}
-	}
-	else
-	{
-		S = 0;
-		Q_ = 0;
-		R_ = 0;
-		detS = 0.0;
-		rcondS = 0.0;
-		schurUpdateIndex = 0;
-		schurUpdate = 0;
-		M_physicallength = 0;
-		M_vals = 0;
-		M_ir = 0;
-		M_jc = 0;
-	}
-	numFactorizations = rhs.numFactorizations;
-
-	boundsFreeStart = rhs.boundsFreeStart;
-	constraintsActiveStart = rhs.constraintsActiveStart;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p A u x i l i a r y Q P
- */
-returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
-												Matrix *A_new,
-												const real_t *lb_new,
-												const real_t *ub_new,
-												const real_t *lbA_new,
-												const real_t *ubA_new
-												)
-{
-	int_t i;
-	int_t nV = getNV( );
-	int_t nC = getNC( );
-	returnValue returnvalue;
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
-		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
-		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
-	{
-		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
-	}
-
-	status = QPS_PREPARINGAUXILIARYQP;
-
-
-	/* I) SETUP NEW QP MATRICES AND VECTORS: */
-	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
-	 *    that old optimal solution remains feasible for new QP data. */
-	/*    Firstly, shift by -A'*x_opt and ... */
-	if ( nC > 0 )
-	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
-		for ( i=0; i<nC; ++i )
-		{
-			lbA[i] = -Ax_l[i];
-			ubA[i] =  Ax_u[i];
-		}
-
-		/* Set constraint matrix as well as ... */
-		setA( A_new );
-
-		/* ... secondly, shift by +A_new'*x_opt. */
-		for ( i=0; i<nC; ++i )
-		{
-			lbA[i] += Ax[i];
-			ubA[i] += Ax[i];
-		}
-
-		/* update constraint products. */
-		for ( i=0; i<nC; ++i )
-		{
-			Ax_u[i] = ubA[i] - Ax[i];
-			Ax_l[i] = Ax[i] - lbA[i];
-		}
-	}
-
-	/* 2) Set new Hessian matrix,determine Hessian type and
-	 *    regularise new Hessian matrix if necessary. */
-	/* a) Setup new Hessian matrix and determine its type. */
-	if ( H_new != 0 )
-	{
-		setH( H_new );
-
-		hessianType = HST_UNKNOWN;
-		if ( determineHessianType( ) != SUCCESSFUL_RETURN )
-			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-		/* b) Regularise new Hessian if necessary. */
-		if ( ( hessianType == HST_ZERO ) ||
-			 ( hessianType == HST_SEMIDEF ) ||
-			 ( usingRegularisation( ) == BT_TRUE ) )
-		{
-			regVal = 0.0; /* reset previous regularisation */
-
-			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-	}
-	else
-	{
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
-
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* II) SETUP WORKING SET AND MATRIX FACTORISATION: */
-
-	/* 1) Check if current active set is linearly independent and has the correct inertia */
-	returnvalue = resetSchurComplement( BT_FALSE );
-	int_t neig = sparseSolver->getNegativeEigenvalues( );
-
-	if ( returnvalue == SUCCESSFUL_RETURN && neig == getNAC( ) )
-	{
-		/* a) This means the proposed working set is linearly independent and
-		 *    leaves no zero curvature exposed in the nullspace and can be used to start QP solve. */
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "In hotstart for new matrices, old working set is linearly independent and has correct inertia.\n");
-
-		status = QPS_AUXILIARYQPSOLVED;
-		return SUCCESSFUL_RETURN;
-	}
-	else if ( returnvalue == SUCCESSFUL_RETURN && neig > getNAC( ) )
-	{
-		/* b) KKT matrix has too many negative eigenvalues. Try to correct the inertia by adding bounds (reduce nullspace dimension). */
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "WARNING: In hotstart for new matrices, reduced Hessian for initial working set has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-		/* If enabling inertia correction is disabled, exit here */
-		if ( options.enableInertiaCorrection )
-		{
-			returnvalue = correctInertia();
-			if ( returnvalue == SUCCESSFUL_RETURN )
-			{
-				status = QPS_AUXILIARYQPSOLVED;
-				return SUCCESSFUL_RETURN;
-			}
-		}
-		else
-			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-
-	/* 2) If inertia correction has failed or factorization yielded some other error,
-	 *    try to rebuild the active set with all simple bounds set according to initialStatusBounds
-	 *    (Note: in exact arithmetic, this cannot happen) */
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: hotstart for old active set failed. Trying to rebuild a working set.\n");
-
-	Bounds      oldBounds      = bounds;
-	Constraints oldConstraints = constraints;
-
-	/* Move all inactive variables to a bound */
-	for ( i=0; i<nV; i++ )
-	{
-		#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
-		if ( bounds.getType( i ) == ST_EQUALITY )
-		{
-			if ( oldBounds.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-		else
-		#endif
-		{
-			if ( oldBounds.getStatus( i ) == ST_INACTIVE )
-				if ( oldBounds.setStatus( i, options.initialStatusBounds ) != SUCCESSFUL_RETURN )
-					return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-	}
-
-	/* Set all equalities active */
-	#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
-	for( i=0; i<nC; ++i )
-	{
-		if ( constraints.getType( i ) == ST_EQUALITY )
-			if ( oldConstraints.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-	#endif
-
-	/* Set all inequalities inactive */
-	for( i=0; i<nC; ++i )
-	{
-		if ( constraints.getType( i ) != ST_EQUALITY )
-			if ( oldConstraints.setStatus( i,ST_INACTIVE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-
-	/* Reset bounds and constraints */
-	bounds.init( nV );
-	constraints.init( nC );
-
-	if ( setupSubjectToType(lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	if ( bounds.setupAllFree( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	if ( constraints.setupAllInactive( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* Setup working sets afresh. */
-	if ( setupAuxiliaryWorkingSet( &oldBounds,&oldConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* adjust lb/ub */
-	for (int_t ii = 0; ii < nC; ++ii)
-		Ax_l[ii] = Ax_u[ii] = Ax[ii];
-	setupAuxiliaryQPbounds (&bounds, &constraints, BT_FALSE);
-
-	status = QPS_AUXILIARYQPSOLVED;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p A u x i l i a r y W o r k i n g S e t
- */
-returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBounds,
-														const Constraints* const auxiliaryConstraints,
-														BooleanType setupAfresh
-														)
-{
-	int_t i;
-	int_t nV = getNV( );
-	int_t nC = getNC( );
-
-	/* consistency checks */
-	if ( auxiliaryBounds != 0 )
-	{
-		for( i=0; i<nV; ++i )
-			if ( ( bounds.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryBounds->getStatus( i ) == ST_UNDEFINED ) )
-				return THROWERROR( RET_UNKNOWN_BUG );
-	}
-	else
-	{
-		return THROWERROR( RET_INVALID_ARGUMENTS );
-	}
-
-	if ( auxiliaryConstraints != 0 )
-	{
-		for( i=0; i<nC; ++i )
-			if ( ( constraints.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryConstraints->getStatus( i ) == ST_UNDEFINED ) )
-				return THROWERROR( RET_UNKNOWN_BUG );
-	}
-	else
-	{
-		return THROWERROR( RET_INVALID_ARGUMENTS );
-	}
-
-	/* I.) REMOVE INEQUALITY BOUNDS/CONSTRAINTS */
-
-	/* I.1) Remove inequality bounds that are active now but shall be
-	 *      inactive or active at the other bound according to auxiliaryBounds */
-	for( i=0; i<nV; ++i )
-	{
-		if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
-			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-		if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
-			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* I.2.) Remove inequality constraints that are active now but shall be
-	 *       inactive or active at the other bound according to auxiliaryConstraints */
-	for( i=0; i<nC; ++i )
-	{
-		if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
-			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-		if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
-			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* II.) ADD BOUNDS/CONSTRAINTS */
-
-	/* II.1.) Add bounds according to auxiliaryBounds */
-	for( i=0; i<nV; ++i )
-	{
-		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) )
-			if ( bounds.moveFreeToFixed( i, auxiliaryBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* II.2.) Add constraints according to auxiliaryConstraints */
-	for( i=0; i<nC; ++i )
-	{
-		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
-			if ( constraints.moveInactiveToActive( i,auxiliaryConstraints->getStatus( i ) ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* III) FACTORIZATION */
-
-	/* III.1.) Factorize (resolves linear dependency) */
-	if( resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-	/* III.2.) Check if inertia is correct. If so, we now have a linearly independent working set with a pos def reduced Hessian */
-	int_t neig = sparseSolver->getNegativeEigenvalues( );
-	if ( neig == getNAC( ) )
-	{
-		/* We now have a linearly independent working set with a pos def reduced Hessian.
-		 * We need to correct the QP bounds and gradient after this. */
-		return SUCCESSFUL_RETURN;
-	}
-
-	/* IV.) INERTIA CORRECTION IF NECESSARY */
-
-	/* We now have a fresh factorization and can start the usual inertia correction routine */
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: In setupAuxiliaryWorkingSet: Initial working set reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-	if ( options.enableInertiaCorrection == BT_TRUE )
-		return correctInertia( );
-	else
-		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-}
-
-
-/*
- *	c h o l e s k y D e c o m p o s i t i o n P r o j e c t e d
- */
-returnValue SQProblemSchur::computeProjectedCholesky( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	c o m p u t e I n i t i a l C h o l e s k y
- */
-returnValue SQProblemSchur::computeInitialCholesky( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p T Q f a c t o r i s a t i o n
- */
-returnValue SQProblemSchur::setupTQfactorisation( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	a d d C o n s t r a i n t
- */
-returnValue SQProblemSchur::addConstraint(	int_t number, 
-											SubjectToStatus C_status,
-											BooleanType updateCholesky,
-											BooleanType ensureLI
-											)
-{
-	int_t idxDeleted = -1;
-
-	/* consistency checks */
-	if ( constraints.getStatus( number ) != ST_INACTIVE )
-		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
-
-	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
-		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
-		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-
-	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
-	 *    i.e. remove a constraint or bound if linear dependence occurs. */
-	if ( ensureLI == BT_TRUE )
-	{
-		returnValue ensureLIreturnvalue = addConstraint_ensureLI( number,C_status );
-
-		switch ( ensureLIreturnvalue )
-		{
-			case SUCCESSFUL_RETURN:
-				break;
-
-			case RET_LI_RESOLVED:
-				break;
-
-			case RET_ENSURELI_FAILED_NOINDEX:
-				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_FAILED_CYCLING:
-				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_DROPPED:
-				return SUCCESSFUL_RETURN;
-
-			default:
-				return THROWERROR( RET_ENSURELI_FAILED );
-		}
-	}
-
-	/* IV) UPDATE INDICES */
-	tabularOutput.idxAddC = number;
-	if ( constraints.moveInactiveToActive( number,C_status ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this constraint had been removed before. In that
-	   case delete this constraint from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_ConRemoved && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-			found = true;
-			idxDeleted = i;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Correct inertia if necessary. */
-			returnValue retval = resetSchurComplement( BT_TRUE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-			}
-			found = true;
-		}
-		else
-		{
-			/* If the constraint was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-
-			sparse_int_t* MNpos = new sparse_int_t[nFRStart+nS]; // This is an overestimate
-			real_t* MNvals = new real_t[nFRStart+nS];
-
-			int_t* irn = new int_t[nFRStart+nS];
-			int_t* jcn = new int_t[nFRStart+nS];
-			real_t* vals = new real_t[nFRStart+nS];
-			int_t* icolsNumber = new int_t[nFRStart+nS];
-			int_t* icolsSIdx = new int_t[nS];
-
-			for ( int_t i=0; i<nFRStart; i++)
-				icolsNumber[i] = FR_idxStart[i];
-
-			int_t icolsLength = nFRStart;
-			for ( int_t i=0; i<nS; i++)
-				if ( schurUpdate[i] == SUT_VarFreed )
-				{
-					icolsNumber[icolsLength] = schurUpdateIndex[i];
-					icolsSIdx[icolsLength-nFRStart] = i;
-					icolsLength++;
-				}
-
-			if ( constraintProduct != 0 )
-			{
-				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
-			int_t numNonzerosA;
-			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
-			delete [] irn;
-
-			int_t numNonzerosM = 0;
-			int_t numNonzerosN = 0;
-			for ( int_t i=0; i<numNonzerosA; i++ )
-				if ( jcn[i] < nFRStart )
-				{
-					MNpos[numNonzerosM] = jcn[i];
-					MNvals[numNonzerosM] = vals[i];
-					numNonzerosM++;
-				}
-				else
-				{
-					MNpos[nFRStart+numNonzerosN] = icolsSIdx[jcn[i]-nFRStart];
-					MNvals[nFRStart+numNonzerosN] = vals[i];
-					numNonzerosN++;
-				}
-
-			returnValue returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
-
-			delete [] icolsSIdx;
-			delete [] icolsNumber;
-			delete [] vals;
-			delete [] jcn;
-			delete [] MNvals;
-			delete [] MNpos;
-
-			if ( returnvalue != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-			found = true;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-	updateSchurQR( idxDeleted );
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR  && options.printLevel == PL_HIGH )
-				MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-
-/*
- *	a d d C o n s t r a i n t _ c h e c k L I
- */
-returnValue SQProblemSchur::addConstraint_checkLI( int_t number )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
-
-	delete [] xiB;
-	delete [] xiC;
-
-	return returnvalueCheckLI;
-}
-
-
-/*
- *	a d d C o n s t r a i n t _ c h e c k L I S c h u r
- */
-returnValue SQProblemSchur::addConstraint_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
-{
-	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
-
-	int_t ii;
-	int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nC  = getNC( );
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	int_t *FR_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-
-	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
-	{
-		/*
-		 * expensive LI test. Backsolve with refinement using special right
-		 * hand side. This gives an estimate for what should be considered
-		 * "zero". We then check linear independence relative to this estimate.
-		 */
-
-		int_t *FX_idx, *AC_idx, *IAC_idx;
-
-		real_t *delta_g   = new real_t[nV];
-		real_t *delta_xFX = new real_t[nFX];
-		real_t *delta_xFR = new real_t[nFR];
-		real_t *delta_yAC = xiC;
-		real_t *delta_yFX = xiB;
-
-		bounds.getFixed( )->getNumberArray( &FX_idx );
-		constraints.getActive( )->getNumberArray( &AC_idx );
-		constraints.getInactive( )->getNumberArray( &IAC_idx );
-
-		int_t dim = (nC>nV)?nC:nV;
-		real_t *nul = new real_t[dim];
-		for (ii = 0; ii < dim; ++ii)
-			nul[ii]=0.0;
-
-		A->getRow (number, 0, 1.0, delta_g);
-
-		returnValue dsdreturnvalue = determineStepDirection ( delta_g,
-											  nul, nul, nul, nul,
-											  BT_FALSE, BT_FALSE,
-											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
-			returnvalue = dsdreturnvalue;
-
-		delete[] nul;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
-
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
-
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
-
-		delete[] delta_xFR;
-		delete[] delta_xFX;
-		delete[] delta_g;
-
-	}
-	return THROWINFO( returnvalue );
-}
-
-
-/*
- *	a d d C o n s t r a i n t _ e n s u r e L I
- */
-returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatus C_status )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
-
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return THROWERROR( RET_ENSURELI_FAILED );
-	}
-
-	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return SUCCESSFUL_RETURN;
-	}
-
- 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
-	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
-	int_t i, ii;
-
-	if ( C_status != ST_LOWER )
-	{
-		for( i=0; i<nAC; ++i )
-			xiC[i] = -xiC[i];
-		for( i=0; i<nFX; ++i )
-			xiB[i] = -xiB[i];
-	}
-
-	int_t nV  = getNV( );
-
-	int_t* FX_idx;
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-
-	int_t* AC_idx;
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-	real_t* num = new real_t[nV];
-
-	real_t y_min = options.maxDualJump;
-	int_t y_min_number = -1;
-	int_t y_min_number_bound = -1;
-	BooleanType y_min_isBound = BT_FALSE;
-
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
-
-	/* 1) Constraints. */
-	for( i=0; i<nAC; ++i )
-	{
-		ii = AC_idx[i];
-		num[i] = y[nV+ii];
-	}
-
-	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
-
-	/* 2) Bounds. */
-	for( i=0; i<nFX; ++i )
-	{
-		ii = FX_idx[i];
-		num[i] = y[ii];
-	}
-
-	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
-
-	if ( y_min_number_bound >= 0 )
-	{
-		y_min_number = y_min_number_bound;
-		y_min_isBound = BT_TRUE;
-	}
-
-	#ifndef __XPCTARGET__
-	/* setup output preferences */
-	char messageString[80];
-	#endif
-
-	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
-	if ( y_min_number >= 0 )
-	{
-		/* Update Lagrange multiplier... */
-		for( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			y[nV+ii] -= y_min * xiC[i];
-		}
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-			y[ii] -= y_min * xiB[i];
-		}
-
-		/* ... also for newly active constraint... */
-		if ( C_status == ST_LOWER )
-			y[nV+number] = y_min;
-		else
-			y[nV+number] = -y_min;
-
-		/* ... and for constraint to be removed. */
-		if ( y_min_isBound == BT_TRUE )
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemB = 1;
-
-			y[y_min_number] = 0.0;
-		}
-		else
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemC = 1;
-
-			y[nV+y_min_number] = 0.0;
-		}
-	}
-	else
-	{
-		if (options.enableDropInfeasibles == BT_TRUE) {
-			/* dropping of infeasible constraints according to drop priorities */
-			returnvalue = dropInfeasibles (number, C_status, BT_FALSE, xiB, xiC);
-		}
-		else
-		{
-			/* no constraint/bound can be removed => QP is infeasible! */
-			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
-			setInfeasibilityFlag( returnvalue );
-		}
-	}
-
-farewell:
-	delete[] num;
-	delete [] xiB;
-	delete [] xiC;
-
-	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-
-	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
-}
-
-
-/*
- *	a d d B o u n d
- */
-returnValue SQProblemSchur::addBound(	int_t number,
-										SubjectToStatus B_status,
-										BooleanType updateCholesky,
-										BooleanType ensureLI
-										)
-{
-	int_t idxDeleted = -1;
-
-	/* consistency checks */
-	if ( bounds.getStatus( number ) != ST_INACTIVE )
-		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
-
-	if ( getNFR( ) == bounds.getNUV( ) )
-		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-
-	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
-	 *    i.e. remove a constraint or bound if linear dependence occurs. */
-	if ( ensureLI == BT_TRUE )
-	{
-		returnValue ensureLIreturnvalue = addBound_ensureLI( number,B_status );
-
-		switch ( ensureLIreturnvalue )
-		{
-			case SUCCESSFUL_RETURN:
-				break;
-
-			case RET_LI_RESOLVED:
-				break;
-
-			case RET_ENSURELI_FAILED_NOINDEX:
-				return RET_ADDBOUND_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_FAILED_CYCLING:
-				return RET_ADDBOUND_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_DROPPED:
-				return SUCCESSFUL_RETURN;
-
-			default:
-				return THROWERROR( RET_ENSURELI_FAILED );
-		}
-	}
-
-	/* II) UPDATE INDICES */
-	tabularOutput.idxAddB = number;
-	if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_ADDBOUND_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this variable had been freed before. In that
-	   case delete this variable from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_VarFreed && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDBOUND_FAILED );
-			found = true;
-			idxDeleted = i;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Correct inertia if necessary. */
-			returnValue retval = resetSchurComplement( BT_TRUE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_ADDBOUND_FAILED );
-			}
-			found = true;
-		}
-		else
-		{
-			/* If the variable was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-			for ( int_t i=0; i<nFRStart; i++ )
-				if ( FR_idxStart[i] == number )
-				{
-					real_t one = 1.0;
-					sparse_int_t pos = i;
-					if ( addToSchurComplement( number, SUT_VarFixed, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
-						return THROWERROR( RET_ADDBOUND_FAILED );
-					found = true;
-					break;
-				}
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_ADDBOUND_FAILED );
-
-	updateSchurQR( idxDeleted );
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	a d d B o u n d _ c h e c k L I
- */
-returnValue SQProblemSchur::addBound_checkLI( int_t number )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
-
-	delete [] xiB;
-	delete [] xiC;
-
-	return returnvalueCheckLI;
-}
-
-/*
- *	a d d B o u n d _ c h e c k L I S c h u r
- */
-returnValue SQProblemSchur::addBound_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
-{
-	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
-
-
-	int_t ii;
-	int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nC  = getNC( );
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	int_t *FR_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-
-	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
-	{
-		/*
-		 * expensive LI test. Backsolve with refinement using special right
-		 * hand side. This gives an estimate for what should be considered
-		 * "zero". We then check linear independence relative to this estimate.
-		 */
-
-		real_t *delta_g   = new real_t[nV];
-		real_t *delta_xFX = new real_t[nFX];
-		real_t *delta_xFR = new real_t[nFR];
-		real_t *delta_yAC = xiC;
-		real_t *delta_yFX = xiB;
-
-		for (ii = 0; ii < nV; ++ii)
-			delta_g[ii] = 0.0;
-		delta_g[number] = 1.0;
-
-		int_t dim = (nC>nV)?nC:nV;
-		real_t *nul = new real_t[dim];
-		for (ii = 0; ii < dim; ++ii)
-			nul[ii]=0.0;
-
-		returnValue dsdReturnValue = determineStepDirection (
-				delta_g, nul, nul, nul, nul, BT_FALSE, BT_FALSE,
-				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdReturnValue != SUCCESSFUL_RETURN)
-			returnvalue = dsdReturnValue;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
-
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
-
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
-
-		delete[] nul;
-		delete[] delta_xFR;
-		delete[] delta_xFX;
-		delete[] delta_g;
-
-	}
-	return THROWINFO( returnvalue );
-}
-
-
-/*
- *	a d d B o u n d _ e n s u r e L I
- */
-returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_status )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
-
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return THROWERROR( RET_ENSURELI_FAILED );
-	}
-
-	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return SUCCESSFUL_RETURN;
-	}
-
- 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
-	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
-	int_t i, ii;
-
-	if ( B_status != ST_LOWER )
-	{
-		for( i=0; i<nAC; ++i )
-			xiC[i] = -xiC[i];
-		for( i=0; i<nFX; ++i )
-			xiB[i] = -xiB[i];
-	}
-
-	int_t nV  = getNV( );
-
-	int_t* FX_idx;
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-
-	int_t* AC_idx;
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-	real_t* num = new real_t[nV];
-
-	real_t y_min = options.maxDualJump;
-	int_t y_min_number = -1;
-	int_t y_min_number_bound = -1;
-	BooleanType y_min_isBound = BT_FALSE;
-
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
-
-	/* 1) Constraints. */
-	for( i=0; i<nAC; ++i )
-	{
-		ii = AC_idx[i];
-		num[i] = y[nV+ii];
-	}
-
-	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum, options.epsDen, y_min,y_min_number );
-
-	/* 2) Bounds. */
-	for( i=0; i<nFX; ++i )
-	{
-		ii = FX_idx[i];
-		num[i] = y[ii];
-	}
-
-	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum, options.epsDen, y_min,y_min_number_bound );
-
-	if ( y_min_number_bound >= 0 )
-	{
-		y_min_number = y_min_number_bound;
-		y_min_isBound = BT_TRUE;
-	}
-
-	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
-	char messageString[80];
-
-	if ( y_min_number >= 0 )
-	{
-		/* Update Lagrange multiplier... */
-		for( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			y[nV+ii] -= y_min * xiC[i];
-		}
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-			y[ii] -= y_min * xiB[i];
-		}
-
-		/* ... also for newly active bound ... */
-		if ( B_status == ST_LOWER )
-			y[number] = y_min;
-		else
-			y[number] = -y_min;
-
-		/* ... and for bound to be removed. */
-		if ( y_min_isBound == BT_TRUE )
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemB = 1;
-
-			y[y_min_number] = 0.0;
-		}
-		else
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemC = 1;
-
-			y[nV+y_min_number] = 0.0;
-		}
-	}
-	else
-	{
-		if (options.enableDropInfeasibles == BT_TRUE) {
-			/* dropping of infeasible constraints according to drop priorities */
-			returnvalue = dropInfeasibles (number, B_status, BT_TRUE, xiB, xiC);
-		}
-		else
-		{
-			/* no constraint/bound can be removed => QP is infeasible! */
-			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
-			setInfeasibilityFlag( returnvalue );
-		}
-	}
-
-farewell:
-	delete[] num;
-	delete[] xiB;
-	delete[] xiC;
-
-	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-
-	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
-}
-
-
-
-/*
- *	r e m o v e C o n s t r a i n t
- */
-returnValue SQProblemSchur::removeConstraint(	int_t number,
-												BooleanType updateCholesky,
-												BooleanType allowFlipping,
-												BooleanType ensureNZC
-												)
-{
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	int_t sModType = 0;
-	int_t idxDeleted = -1;
-	SubjectToStatus oldStatus;
-	real_t oldDet, newDet;
-
-	/* consistency check */
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-	/* some definitions */
-	int_t nAC = getNAC( );
-	int_t number_idx = constraints.getActive( )->getIndex( number );
-
-	int_t addIdx;
-	BooleanType addBoundNotConstraint;
-	SubjectToStatus addStatus;
-	BooleanType exchangeHappened = BT_FALSE;
-
-
-	/* consistency checks */
-	if ( constraints.getStatus( number ) == ST_INACTIVE )
-		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
-
-	if ( ( number_idx < 0 ) || ( number_idx >= nAC ) )
-		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
-
-	/* N) PERFORM ZERO CURVATURE TEST. */
-	if (ensureNZC == BT_TRUE)
-	{
-		returnvalue = ensureNonzeroCurvature(BT_FALSE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
-
-		if (returnvalue != SUCCESSFUL_RETURN)
-			return returnvalue;
-	}
-
-	/* save old constraint status and determinant of old S for flipping strategy */
-	oldStatus = constraints.getStatus( number );
-	oldDet = detS;
-
-	/* I) UPDATE INDICES */
-	tabularOutput.idxRemC = number;
-	if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this constraint had been added before. In that
-	   case delete this constraint from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_ConAdded && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-			found = true;
-			idxDeleted = i;
-			sModType = 2;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Don't check inertia here, may be corrected later! */
-			returnValue retval = resetSchurComplement( BT_FALSE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-			}
-			found = true;
-			sModType = 3;
-		}
-		else
-		{
-			/* If the constraint was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t nACStart = constraintsActiveStart.getLength();
-			int_t* AC_idxStart;
-			constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-			for ( int_t i=0; i<nACStart; i++ )
-				if ( AC_idxStart[i] == number )
-				{
-					real_t one = 1.0;
-					sparse_int_t pos = nFRStart+i;
-					if ( addToSchurComplement( number, SUT_ConRemoved, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-					found = true;
-					break;
-				}
-
-			sModType = 1;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-
-	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
-
-	/* Flipping bounds strategy */
-	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
-	{
-		if ( sModType == 1 )
-		{/* Case 1: We added a row and column to S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet > 0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				nS--;
-
-				/* Flip bounds */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						break;
-					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 2 )
-		{/* Case 2: We deleted a row and column of S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet < 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
-
-				/* Flip bounds */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						break;
-					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 3 )
-		{/* Case 3: S was reset. */
-
-			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
-			int_t neig = sparseSolver->getNegativeEigenvalues( );
-			if( neig > getNAC( ) ) // Wrong inertia!
-			{
-				/* Flip bounds and update Schur complement */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
-						break;
-					case ST_UPPER:
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-
-			/* Check if flipping deleted the negative eigenvalue */
-			if( correctInertia( ) )
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-		}
-		else
-		{/* None of the three cases happened */
-			return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-		}
-	}
-	else
-	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
-	}
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	if ( exchangeHappened == BT_TRUE )
-	{
-		/* add bound or constraint */
-
-		if ( addBoundNotConstraint )
-		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddB = 1;
-		}
-		else
-		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddC = 1;
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	r e m o v e B o u n d
- */
-returnValue SQProblemSchur::removeBound(	int_t number,
-											BooleanType updateCholesky,
-											BooleanType allowFlipping,
-											BooleanType ensureNZC
-											)
-{
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-	int_t addIdx;
-	BooleanType addBoundNotConstraint;
-	SubjectToStatus addStatus;
-	BooleanType exchangeHappened = BT_FALSE;
-
-	int_t sModType = 0;
-	int_t idxDeleted = -1;
-	SubjectToStatus oldStatus;
-	real_t oldDet, newDet;
-
-	/* consistency checks */
-	if ( bounds.getStatus( number ) == ST_INACTIVE )
-		return THROWERROR( RET_BOUND_NOT_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )           )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-	/* N) PERFORM ZERO CURVATURE TEST. */
-	if (ensureNZC == BT_TRUE)
-	{
-		returnvalue = ensureNonzeroCurvature(BT_TRUE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
-
-		if (returnvalue != SUCCESSFUL_RETURN)
-			return returnvalue;
-	}
-
-	/* save old bound status and determinant of old S for flipping strategy */
-	oldStatus = bounds.getStatus( number );
-	oldDet = detS;
-
-	/* I) UPDATE INDICES */
-	tabularOutput.idxRemB = number;
-	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this variable had been fixed before. In that
-	   case delete this variable from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_VarFixed && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-			found = true;
-			idxDeleted = i;
-			sModType = 2;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Don't correct inertia here, may be corrected by flipping bounds! */
-			returnValue retval = resetSchurComplement( BT_FALSE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH  )
-					MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-			}
-			found = true;
-			sModType = 3;
-		}
-		else
-		{
-			/* If the variable was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t nACStart = constraintsActiveStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-			int_t* AC_idxStart;
-			constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-			int_t numNonzerosM = 0;
-			sparse_int_t* Mpos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
-			real_t* Mvals = new real_t[nFRStart+nACStart+nS];
-			int_t numNonzerosN = 0;
-			sparse_int_t* Npos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
-			real_t* Nvals = new real_t[nFRStart+nACStart+nS];
-			real_t N_diag;
-
-			int_t* irn = new int_t[nFRStart+nACStart+nS+1];
-			int_t* jcn = new int_t[nFRStart+nACStart+nS+1];
-			real_t* vals = new real_t[nFRStart+nACStart+nS+1];
-			int_t iLength;
-			int_t* iNumber = new int_t[nFRStart+nACStart+nS+1];
-			int_t numNonzeros;
-			int_t* iSIdx = new int_t[nS];
-
-			/* First the Hessian part. */
-			real_t regularisation = options.epsRegularisation;
-			switch ( hessianType )
-			{
-				case HST_ZERO:
-					N_diag = regularisation;
-					break;
-
-				case HST_IDENTITY:
-					N_diag = 1.0 + regularisation;
-					break;
-
-				default:
-					N_diag = regularisation;
-					for ( int_t i=0; i<nFRStart; i++ )
-						iNumber[i] = FR_idxStart[i];
-					iLength = nFRStart;
-					for ( int_t i=0; i<nS; i++ )
-						if ( schurUpdate[i] == SUT_VarFreed )
-						{
-							iNumber[iLength] = schurUpdateIndex[i];
-							iSIdx[iLength-nFRStart] = i;
-							iLength++;
-						}
-					iNumber[iLength++] = number;
-
-					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
-
-					for ( int_t i=0; i<numNonzeros; i++ )
-					{
-						if ( irn[i] < nFRStart )
-						{
-							Mpos[numNonzerosM] = irn[i];
-							Mvals[numNonzerosM] = vals[i];
-							numNonzerosM++;
-						}
-						else if ( irn[i] != iLength-1 )
-						{
-							Npos[numNonzerosN] = iSIdx[irn[i] - nFRStart];
-							Nvals[numNonzerosN] = vals[i];
-							numNonzerosN++;
-						}
-						else
-							N_diag += vals[i];
-					}
-					break;
-			}
-
-			if ( constraintProduct != 0 )
-			{
-				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
-
-			for ( int_t i=0; i<nACStart; i++ )
-				iNumber[i] = AC_idxStart[i];
-			iLength = nACStart;
-			for ( int_t i=0; i<nS; i++ )
-				if ( schurUpdate[i] == SUT_ConAdded )
-				{
-					iNumber[iLength] = schurUpdateIndex[i];
-					iSIdx[iLength-nACStart] = i;
-					iLength++;
-				}
-
-			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
-
-			for ( int_t i=0; i<numNonzeros; i++ )
-			{
-				if ( irn[i] < nACStart )
-				{
-					Mpos[numNonzerosM] = irn[i] + nFRStart;
-					Mvals[numNonzerosM] = vals[i];
-					numNonzerosM++;
-				}
-				else
-				{
-					Npos[numNonzerosN] = iSIdx[irn[i] - nACStart];
-					Nvals[numNonzerosN] = vals[i];
-					numNonzerosN++;
-				}
-			}
-
-			delete [] iSIdx;
-			delete [] iNumber;
-			delete [] vals;
-			delete [] jcn;
-			delete [] irn;
-
-			returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
-
-			delete [] Mvals;
-			delete [] Mpos;
-			delete [] Nvals;
-			delete [] Npos;
-
-			if ( returnvalue != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-			found = true;
-			sModType = 1;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
-
-	/* Flipping bounds strategy */
-	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
-	{
-		if ( sModType == 1 )
-		{/* Case 1: We added a row and column to S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet > 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				nS--;
-
-				/* Flip bounds */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
-						ub[number] = lb[number];
-						break;
-					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
-						lb[number] = ub[number];
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 2 )
-		{/* Case 2: We deleted a row and column of S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet < 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
-
-				/* Flip bounds */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
-						ub[number] = lb[number];
-						break;
-					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
-						lb[number] = ub[number];
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 3 )
-		{/* Case 3: S was reset. */
-
-			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
-			int_t neig = sparseSolver->getNegativeEigenvalues( );
-			if( neig > getNAC( ) ) // Wrong inertia, flip bounds!
-			{
-				/* Flip bounds and update Schur complement */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						ub[number] = lb[number];
-						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
-						break;
-					case ST_UPPER:
-						lb[number] = ub[number];
-						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-
-			/* Check if flipping deleted the negative eigenvalue */
-			if( correctInertia( ) )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-		}
-		else
-		{/* None of the three cases happened */
-			return THROWERROR( RET_REMOVEBOUND_FAILED );
-		}
-	}
-	else
-	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
-	}
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	if ( exchangeHappened == BT_TRUE )
-	{
-		/* add bound or constraint */
-
-		if ( addBoundNotConstraint )
-		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddB = 1;
-		}
-		else
-		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddC = 1;
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p T Q f a c t o r i s a t i o n
- */
-returnValue SQProblemSchur::backsolveT( const real_t* const b, BooleanType transposed, real_t* const a ) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	b a c k s o l v e R
- */
-returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, real_t* const a 	) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	b a c k s o l v e R
- */
-returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, BooleanType removingBound, real_t* const a ) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	c a l c D e t S c h u r
- */
-real_t SQProblemSchur::calcDetSchur( int_t idxDel )
-{
-	if ( nS <= 0 )
-		return 1.0;
-
-	real_t newDet;
-	int_t i, j;
-	real_t c, s, nu;
-
-	/* Case 1: S has been bordered by one row and column */
-	if( idxDel < 0 )
-	{
-		/* Do a solve with the old S to check determinant of new (bordered) S */
-		real_t *temp1 = new real_t[nS-1];
-		real_t *temp2 = new real_t[nS-1];
-		for( i=0; i<nS-1; i++ )
-			temp1[i] = S[i + (nS-1)*nSmax];
-		backsolveSchurQR( nS-1, temp1, 1, temp2 );
-
-		newDet = S[(nS-1) + (nS-1)*nSmax];
-		for( i=0; i<nS-1; i++ )
-			newDet -= temp1[i]*temp2[i];
-		newDet *= detS;
-		delete [] temp1;
-		delete [] temp2;
-	}
-	/* Case 2: row and column idxDel have been deleted from S */
-	else
-	{
-		const int_t dim = nS+1;
-		real_t *tempR = new real_t[dim*(dim-1)];
-		real_t *tempColQ = new real_t[dim];
-
-		/* Copy current R without column idxDel*/
-		for( j=0; j<idxDel; j++ )
-			for( i=0; i<dim; i++ )
-				tempR[i+j*dim] = R_[i+j*nSmax];
-		for( j=idxDel; j<dim-1; j++ )
-			for( i=0; i<dim; i++ )
-				tempR[i+j*dim] = R_[i+(j+1)*nSmax];
-		/* Copy row idxDel of Q */
-		for( j=0; j<dim; j++ )
-			tempColQ[j] = Q_[idxDel+j*nSmax];
-
-		/* Bring tempR to triangular form with nS-idxDel Givens rotations */
-		for ( i=idxDel; i<nS; i++ )
-		{
-			computeGivens( tempR[i+i*dim], tempR[(i+1)+i*dim], tempR[i+i*dim], tempR[(i+1)+i*dim], c, s );
-			nu = s/(1.0+c);
-			/// \todo I think we do not need to transform all columns of R, i+3 or so should be sufficient
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, tempR[i+j*dim], tempR[(i+1)+j*dim], tempR[i+j*dim], tempR[(i+1)+j*dim] );
-
-			/* Simultaneously transform relevant column of Q**T */
-			applyGivens( c, s, nu, tempColQ[i], tempColQ[i+1], tempColQ[i], tempColQ[i+1] );
-		}
-
-		/* Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
-		for ( i=nS; i>0; i-- )
-		{
-			computeGivens( tempColQ[nS], tempColQ[i-1], tempColQ[nS], tempColQ[i-1], c, s );
-			nu = s/(1.0+c);
-
-			/* Simultaneously transform diagonal elements of R (coldim is already one less than Q) */
-			applyGivens( c, s, nu, tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim], tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim] );
-		}
-
-		/* Note that we implicitly did a row permutation of Q.
-		 * If we did an  odd permutation AND deleted a positive unity vector or
-		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
-		 * ->Change signs of first column of Q and first row of R */
-		if ( (( (nS - idxDel) % 2 == 1 ) && ( tempColQ[nS] > 0.0 )) ||
-			(( (nS - idxDel) % 2 == 0 ) && ( tempColQ[nS] < 0.0 )) )
-		{
-			tempR[0] = -tempR[0];
-		}
-
-		newDet = 1.0;
-		//for( i=0; i<nS; i++ )
-			//newDet *= tempR[i+i*dim];
-		for( i=0; i<nS; i++ )
-			if( tempR[i+i*dim] < 0.0 ) newDet = -newDet;
-		delete [] tempR;
-		delete [] tempColQ;
-	}
-
-	return newDet;
-}
-
-
-/*
- *	u p d a t e S c h u r Q R
- */
-returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
-{
-	int_t i, j;
-	real_t c, s, nu;
-
-	if ( nS <= 0 )
-	{
-		detS = 1.0;
-		rcondS = 1.0;
-		return SUCCESSFUL_RETURN;
-	}
-
-	/* Case 1: S has been bordered by one row and column */
-	if ( idxDel < 0 )
-	{
-		/* I: Augment Q**T by nS-th unity vector (row and column) */
-		for ( i=0; i<nS; i++ )
-		{
-			Q_[i+(nS-1)*nSmax] = 0.0;
-			Q_[(nS-1)+i*nSmax] = 0.0;
-		}
-		Q_[(nS-1)+(nS-1)*nSmax] = 1.0;
-
-		/* IIa: Augment rows of R by last row of S */
-		for ( i=0; i<nS; i++ )
-			R_[(nS-1)+i*nSmax] = S[(nS-1)+i*nSmax];
-
-		/* IIb: Augment columns of R by Q**T * S[nS,:] */
-		for ( i=0; i<nS; i++ )
-		{
-			R_[i+(nS-1)*nSmax] = 0.0;
-			for ( j=0; j<nS; j++ )
-				R_[i+(nS-1)*nSmax] += Q_[j+i*nSmax] * S[j+(nS-1)*nSmax];
-		}
-
-		/* III: Restore triangular form of R by nS-1 Givens rotations */
-		for ( i=0; i<nS-1; i++ )
-		{
-			computeGivens( R_[i+i*nSmax], R_[(nS-1)+i*nSmax], R_[i+i*nSmax], R_[(nS-1)+i*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(nS-1)+j*nSmax], R_[i+j*nSmax], R_[(nS-1)+j*nSmax] );
-
-			/* Simultaneously transform Q**T */
-			for ( j=0; j<nS; j++ )
-				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax], Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax] );
-		}
-	}
-	/* Case 2: row and column idxDel have been deleted from S */
-	else
-	{
-		/* I: Delete column idxDel of R */
-		for ( j=idxDel; j<nS; j++ )
-			for ( i=0; i<nS+1; i++ )
-				R_[i+j*nSmax] = R_[i+(j+1)*nSmax];
-
-		/* II: Bring R back to triangular form with nS-idxDel Givens rotations */
-		for ( i=idxDel; i<nS; i++ )
-		{
-			computeGivens( R_[i+i*nSmax], R_[(i+1)+i*nSmax], R_[i+i*nSmax], R_[(i+1)+i*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(i+1)+j*nSmax], R_[i+j*nSmax], R_[(i+1)+j*nSmax] );
-
-			/* Simultaneously transform (old) Q**T (coldim is one larger)*/
-			for ( j=0; j<nS+1; j++ )
-				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(i+1)*nSmax], Q_[j+i*nSmax], Q_[j+(i+1)*nSmax] );
-		}
-
-		/* III: Permute rows of Q: move row idxDel to position nS */
-		real_t temp;
-		for ( j=0; j<nS+1; j++ )
-		{
-			temp = Q_[idxDel+j*nSmax];
-			for ( i=idxDel; i<nS; i++ )
-				Q_[i+j*nSmax] = Q_[(i+1)+j*nSmax];
-			Q_[nS+j*nSmax] = temp;
-		}
-
-		/* IV: Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
-		for ( i=nS; i>0; i-- )
-		{
-			computeGivens( Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=0; j<nS; j++ )
-				applyGivens( c, s, nu, Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax], Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax] );
-
-			/* Simultaneously transform R (coldim is already one less than Q) */
-			for ( j=i-1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[nS+j*nSmax], R_[(i-1)+j*nSmax], R_[nS+j*nSmax], R_[(i-1)+j*nSmax] );
-		}
-
-		/* If we did an  odd permutation AND deleted a positive unity vector or
-		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
-		 * ->Change signs of first column of Q and first row of R s.t. we always maintain det(Q)=1 */
-		if ( (( (nS - idxDel) % 2 == 1 ) && ( Q_[nS+nS*nSmax] > 0.0 )) ||
-			(( (nS - idxDel) % 2 == 0 ) && ( Q_[nS+nS*nSmax] < 0.0 )) )
-		{
-			for ( i=0; i<nS+1; i++ )
-				Q_[i] = -Q_[i];
-			for ( i=0; i<nS; i++ )
-				R_[i*nSmax] = -R_[i*nSmax];
-		}
-	}
-
-	/* Compute determinant */
-	detS = 1.0;
-	//for ( i=0; i<nS; i++ )
-		//detS *= R_[i+i*nSmax];
-	for ( i=0; i<nS; i++ )
-		if( R_[i+i*nSmax] < 0.0 ) detS = -detS;
-
-	/* Estimate condition number of R (= condition number of S)*/
-	real_t *WORK;
-	unsigned long N = (unsigned long)nS;
-	unsigned long LDA = (unsigned long)nSmax;
-	unsigned long *IWORK;
-	long INFO = 0;
-	IWORK = new unsigned long[N];
-	WORK = new real_t[3*N];
-	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
-	if ( INFO != 0 )
-	{
-		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
-	}
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "1/cond(S) = %23.16e.\n", rcondS );
-
-	delete[] IWORK;
-	delete[] WORK;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	b a c k s o l v e S c h u r Q R
- */
-returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rhs, int_t dimRhs, real_t* const sol )
-{
-	if( dimS < 1 || dimRhs < 1 )
-		return SUCCESSFUL_RETURN;
-
-	if( dimRhs > 1 )
-	{
-		MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
-		return RET_QR_FACTORISATION_FAILED;
-	}
-
-	int_t i, j;
-	long INFO = 0;
-	unsigned long NRHS = 1;
-	unsigned long M = (unsigned long)dimS;
-	unsigned long LDA = (unsigned long)nSmax;
-	unsigned long LDC = (unsigned long)dimS;
-
-	for( i=0; i<dimS; i++ )
-		sol[i] = 0.0;
-
-	/* Compute sol = Q**T * rhs */
-	for( i=0; i<dimS; i++ )
-		for( j=0; j<dimS; j++ )
-			sol[i] += Q_[j+i*nSmax] * rhs[j];
-
-	/* Solve Rx = sol */
-	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
-	if ( INFO != 0 )
-	{
-		MyPrintf("TRTRS returns INFO = %d\n", INFO);
-		if ( INFO == ((long)0xDEADBEEF) )
-			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
-		return RET_QR_FACTORISATION_FAILED;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, real_t& rhs_max, 
-											const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-											const real_t* const delta_lb, const real_t* const delta_ub,
-											BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-											real_t* const delta_xFX, real_t* const delta_xFR,
-											real_t* const delta_yAC, real_t* const delta_yFX
-											)
-{
-	int_t i, ii;
-	returnValue retval;
-
-	if ( nS < 0 )
-	{
-		retval = resetSchurComplement( BT_FALSE );
-		if (retval != SUCCESSFUL_RETURN)
-		{
-			MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
-			return THROWERROR( retval );
-		}
-	}
-
-	/* tempA and tempB hold the residuals in gFR and bA (= lbA or ubA)
-	 * delta_xFR, delta_yAC hold the steps that get refined */
-	for ( i=0; i<nFR; ++i )
-	{
-		ii = FR_idx[i];
-		tempA[i] = delta_g[ii];
-		delta_xFR[i] = 0.0;
-	}
-	for ( i=0; i<nAC; ++i )
-		delta_yAC[i] = 0.0;
-	if ( Delta_bC_isZero == BT_FALSE )
-	{
-		for ( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			if ( constraints.getStatus( ii ) == ST_LOWER )
-				tempB[i] = delta_lbA[ii];
-			else
-				tempB[i] = delta_ubA[ii];
-		}
-	}
-	else
-	{
-		for ( i=0; i<nAC; ++i )
-			tempB[i] = 0.0;
-	}
-	if ( ( hessianType != HST_IDENTITY ) && ( hessianType != HST_ZERO ) )
-	{
-		/* tempA becomes RHS for reduced augmented system, gFR+H_FX*delta_xFR */
-		H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
-	}
-	/* tempB becomes RHS for reduced augmented system, bA-A_CX*delta_xFR */
-	A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
-
-	/* If iterative refinement is requested, compute max-norm of RHS for termination test. */
-	rhs_max = 0.0;
-	if ( options.numRefinementSteps > 0 )
-	{
-		for ( i=0; i<nFR; i++ )
-			rhs_max = getMax(rhs_max, getAbs(tempA[i]));
-		for ( i=0; i<nAC; i++ )
-			rhs_max = getMax(rhs_max, getAbs(tempB[i]));
-	}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcReorder(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* rhs)
-{
-	int_t i, ii;
-	/* Reorder information for the new to the old free variables. */
-	i = 0;
-	ii = 0;
-	while ( ii < nFRStart )
-	{
-		if ( i == nFR )
-			rhs[FR_iSortStart[ii++]] = 0.0;
-		else
-		{
-			int_t idx = FR_idx[FR_iSort[i]];
-			int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
-
-			if ( idx == idxStart )
-				rhs[FR_iSortStart[ii++]] = -tempA[FR_iSort[i++]];
-			else if ( idx < idxStart )
-				i++;
-			else
-				rhs[FR_iSortStart[ii++]] = 0.0;
-		}
-	}
-	/* Reorder information for the new to the old active constraints. */
-	i = 0;
-	ii = 0;
-	while ( ii < nACStart )
-	{
-		if ( i == nAC )
-			rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
-		else
-		{
-			int_t idx = AC_idx[AC_iSort[i]];
-			int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
-
-			if ( idx == idxStart )
-				rhs[nFRStart+AC_iSortStart[ii++]] = tempB[AC_iSort[i++]];
-			else if ( idx < idxStart )
-				i++;
-			else
-				rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
-		}
-	}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, int_t dim, real_t* rhs, real_t* sol )
-{
-	returnValue retval;
-	int_t i, ii;
-
-	real_t* q = new real_t[nS];
-
-	/* Compute extra compoments of the RHS */
-	for ( ii=0; ii<nS; ii++ )
-	{
-		int_t idx = schurUpdateIndex[ii];
-		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
-		{
-			case SUT_VarFixed:
-				q[ii] = 0.0;
-				break;
-
-			case SUT_VarFreed:
-				/* Find index of freed variable */
-				for( i=0; i<nFR; ++i )
-					if ( FR_idx[i] == idx )
-					{
-						q[ii] = -tempA[i];
-						break;
-					}
-				break;
-
-			case SUT_ConAdded:
-				/* Find index of added constraint */
-				for( i=0; i<nAC; ++i )
-					if ( AC_idx[i] == idx )
-					{
-						q[ii] = tempB[i];
-						break;
-					}
-				break;
-
-			case SUT_ConRemoved:
-				q[ii] = 0.0;
-				break;
-
-			default:
-				return THROWERROR( RET_UNKNOWN_BUG );
-		}
-	}
-
-	/* compute q = M^T K^{-1} r - q */
-	computeMTransTimes(1.0, sol, -1.0, q);
-
-	/* Solve linear system with Schur complement. */
-	real_t* p = new real_t[nS];
-	backsolveSchurQR( nS, q, 1, p );
-
-	computeMTimes(-1.0, p, 1.0, rhs);
-
-	retval = sparseSolver->solve(dim, rhs, sol);
-	if (retval != SUCCESSFUL_RETURN)
-	{
-		MyPrintf( "sparseSolver->solve (second time) failed.\n");
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-	}
-
-	/* Transfer extra compoments of the Schur complement solution to the correct place. */
-	for ( ii=0; ii<nS; ii++ )
-	{
-		int_t idx = schurUpdateIndex[ii];
-		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
-		{
-			case SUT_VarFixed:
-				break;
-
-			case SUT_VarFreed:
-				/* Find index of freed variable */
-				for( i=0; i<nFR; ++i )
-					if ( FR_idx[i] == idx )
-					{
-						delta_xFR_TMP[i] = p[ii];
-						break;
-					}
-				break;
-
-			case SUT_ConAdded:
-				/* Find index of added constraint */
-				for( i=0; i<nAC; ++i )
-					if ( AC_idx[i] == idx )
-					{
-						delta_yAC_TMP[i] = -p[ii];
-						break;
-					}
-				break;
-
-			case SUT_ConRemoved:
-				break;
-
-			default:
-				return THROWERROR( RET_UNKNOWN_BUG );
-		}
-	}
-
-	delete [] p;
-	delete [] q;
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcReorder2(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* sol, real_t* const delta_xFR, real_t* const delta_yAC)
-{
-	int_t i, ii;
-			i = 0;
-			ii = 0;
-			while ( ii < nFRStart && i < nFR )
-			{
-				int_t idx = FR_idx[FR_iSort[i]];
-				int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
-
-				if ( idx == idxStart )
-					delta_xFR_TMP[FR_iSort[i++]] = sol[FR_iSortStart[ii++]];
-				else if ( idx < idxStart )
-					i++;
-				else
-					ii++;
-			}
-			/* Transfer Schur complement solution for the active constraint multipliers to the correct places */
-			i = 0;
-			ii = 0;
-			while ( ii < nACStart && i < nAC )
-			{
-				int_t idx = AC_idx[AC_iSort[i]];
-				int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
-
-				if ( idx == idxStart )
-					delta_yAC_TMP[AC_iSort[i++]] = -sol[nFRStart+AC_iSortStart[ii++]];
-				else if ( idx < idxStart )
-					i++;
-				else
-					ii++;
-			}
-
-			/* refine the solution found so far */
-			for ( i=0; i<nFR; ++i )
-				delta_xFR[i] += delta_xFR_TMP[i];
-			for ( i=0; i<nAC; ++i )
-				delta_yAC[i] += delta_yAC_TMP[i];
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcResid(int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, BooleanType Delta_bC_isZero, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA, real_t& rnrm)
-{
-	int_t i, ii;
-				/* compute residuals in tempA and tempB, and max-norm */
-				for ( i=0; i<nFR; ++i )
-				{
-					ii = FR_idx[i];
-					tempA[i] = delta_g[ii];
-				}
-
-				switch ( hessianType )
-				{
-					case HST_ZERO:
-						break;
-
-					case HST_IDENTITY:
-						for ( i=0; i<nFR; ++i )
-							tempA[i] += delta_xFR[i];
-						break;
-
-					default:
-						H->times(bounds.getFree(), bounds.getFree(),  1, 1.0, delta_xFR, nFR, 1.0, tempA, nFR);
-						H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
-						break;
-				}
-
-				for ( i=0; i<nFR; ++i )
-					tempA[i] += options.epsRegularisation*delta_xFR[i];
-
-				A->transTimes(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_yAC, nAC, 1.0, tempA, nFR);
-				rnrm = 0.0;
-				for ( i=0; i<nFR; ++i )
-					if (rnrm < getAbs (tempA[i]))
-						rnrm = getAbs (tempA[i]);
-
-				if (!Delta_bC_isZero)
-				{
-					for ( i=0; i<nAC; ++i )
-					{
-						ii = AC_idx[i];
-						if ( constraints.getStatus( ii ) == ST_LOWER )
-							tempB[i] = delta_lbA[ii];
-						else
-							tempB[i] = delta_ubA[ii];
-					}
-				}
-				else
-				{
-					for ( i=0; i<nAC; ++i )
-						tempB[i] = 0.0;
-				}
-
-				A->times(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_xFR, nFR, 1.0, tempB, nAC);
-
-				A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
-				for ( i=0; i<nAC; ++i )
-					if (rnrm < getAbs (tempB[i]))
-						rnrm = getAbs (tempB[i]);
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcDeltayFx(int_t nFR, int_t nFX, int_t nAC, int_t* FX_idx, const real_t* const delta_g, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, real_t* const delta_yFX)
-{
-	int_t i;
-		for( i=0; i<nFX; ++i )
-			delta_yFX[i] = delta_g[FX_idx[i]];
-
-		A->transTimes(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_yAC, nAC, 1.0, delta_yFX, nFX);
-
-		if ( hessianType == HST_ZERO )
-		{
-		  // TODO: if ( usingRegularisation( ) == BT_TRUE )
-				for( i=0; i<nFX; ++i )
-					delta_yFX[i] += options.epsRegularisation*delta_xFX[i];
-		}
-		else if ( hessianType == HST_IDENTITY )
-		{
-			for( i=0; i<nFX; ++i )
-				delta_yFX[i] += delta_xFX[i];
-		}
-		else
-		{
-			H->times(bounds.getFixed(), bounds.getFree(), 1, 1.0, delta_xFR, nFR, 1.0, delta_yFX, nFX);
-			H->times(bounds.getFixed(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, delta_yFX, nFX);
-		}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-												const real_t* const delta_lb, const real_t* const delta_ub,
-												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-												real_t* const delta_xFX, real_t* const delta_xFR,
-												real_t* const delta_yAC, real_t* const delta_yFX
-												)
-{
-	returnValue retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
-													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-													delta_yAC, delta_yFX
-													);
-
-	if ( retval == RET_QR_FACTORISATION_FAILED )
-	{
-		retval = resetSchurComplement( BT_FALSE );
-		if (retval != SUCCESSFUL_RETURN)
-		{
-			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
-			return THROWERROR( retval );
-		}
-		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
-													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-													delta_yAC, delta_yFX
-													);
-	}
-	return retval;
-}
-
-/*
- *	d e t e r m i n e S t e p D i r e c t i o n
- */
-returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-												const real_t* const delta_lb, const real_t* const delta_ub,
-												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-												real_t* const delta_xFX, real_t* const delta_xFR,
-												real_t* const delta_yAC, real_t* const delta_yFX
-												)
-{
-	/* The linear system to be solved here is this:
-
-	   / H_FF  H_FX  A_CF^T  0 \ /  delta_xFR \   / -delta_g_F \
-	   | H_XF  H_XX  A_CX^T  I | |  delta_xFX |   | -delta_g_X |
-	   | A_CF  A_CX    0     0 | | -delta_yAC | = |  delta_bA  |  <-- active entries of delta_lbA and delta_ubA with corresponding sign
-	   \  0     I      0     0 / \ -delta_yFX /   \  delta_bX  /  <-- fixed entries of delta_lb and delta_ub with corresponding sign
-
-	*/
-
-
-	int_t i, ii, r;
-
-	returnValue retval;
-
-  //int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nFX = getNFX( );
-	int_t nAC = getNAC( );
-
-	int_t* FR_idx;
-	int_t* FX_idx;
-	int_t* AC_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-
-	/* I) DETERMINE delta_xFX (this is exact, does not need refinement) */
-	if ( Delta_bB_isZero == BT_FALSE )
-	{
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-
-			if ( bounds.getStatus( ii ) == ST_LOWER )
-				delta_xFX[i] = delta_lb[ii];
-			else
-				delta_xFX[i] = delta_ub[ii];
-		}
-	}
-	else
-	{
-		for( i=0; i<nFX; ++i )
-			delta_xFX[i] = 0.0;
-	}
-
-	if ( nFR+nAC>0 ) {
-		real_t rhs_max = 0.0;
-		retval = stepCalcRhs( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, rhs_max, delta_g, delta_lbA, delta_ubA,
-							  delta_lb, delta_ub, Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-							  delta_yAC, delta_yFX );
-
-		if (retval != SUCCESSFUL_RETURN)
-			return retval;
-		int_t nFRStart = boundsFreeStart.getLength();
-		int_t nACStart = constraintsActiveStart.getLength();
-
-		int_t* FR_iSort;
-		int_t* AC_iSort;
-		bounds.getFree( )->getISortArray( &FR_iSort );
-		constraints.getActive( )->getISortArray( &AC_iSort );
-
-		int_t* FR_idxStart;
-		int_t* AC_idxStart;
-		boundsFreeStart.getNumberArray( &FR_idxStart );
-		constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-		int_t* FR_iSortStart;
-		int_t* AC_iSortStart;
-		boundsFreeStart.getISortArray( &FR_iSortStart );
-		constraintsActiveStart.getISortArray( &AC_iSortStart );
-
-		int_t dim = nFRStart + nACStart;
-		real_t* rhs = new real_t[dim];
-		real_t* sol = new real_t[dim];
-
-		/* Iterative refinement loop for delta_xFR, delta_yAC */
-		for ( r=0; r<=options.numRefinementSteps; ++r )
-		{
-		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
-			if (retval != SUCCESSFUL_RETURN)
-				return retval;
-
-			retval = sparseSolver->solve(dim, rhs, sol);
-
-			if (retval != SUCCESSFUL_RETURN)
-			{
-				MyPrintf( "sparseSolver->solve (first time) failed.\n");
-				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-			}
-
-			if ( nS > 0 )
-			{
-				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
-				if (retval != SUCCESSFUL_RETURN)
-					return retval;
-			}
-
-			/* Transfer Schur complement solution for the free variables to the correct places */
-			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
-			if (retval != SUCCESSFUL_RETURN)
-				return retval;
-
-			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
-			{
-				real_t rnrm;
-				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
-				if (retval != SUCCESSFUL_RETURN)
-					return retval;
-
-				/* early termination of residual norm small enough */
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In iterative refinement (iter %d) rnrm = %e and epsIterRef*rhs_max = %e.\n", r, rnrm, options.epsIterRef*rhs_max);
-
-				if ( rnrm <= options.epsIterRef*rhs_max )
-					break;
-			}
-
-		}
-
-		delete [] sol;
-		delete [] rhs;
-	}
-
-	/* IV) DETERMINE delta_yFX */
-	if ( nFX > 0 )
-	{
-		retval = stepCalcDeltayFx(nFR, nFX, nAC, FX_idx, delta_g, delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (retval != SUCCESSFUL_RETURN)
-			return retval;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrection )
-{
-	int_t j;
-	int_t nFR = getNFR( );
-	int_t nAC = getNAC( );
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "Resetting Schur complement.\n");
-
-	nS = 0;
-	detS = 1.0;
-	rcondS = 1.0;
-	boundsFreeStart = *bounds.getFree();
-	constraintsActiveStart = *constraints.getActive();
-
-	if ( nSmax > 0 )
-		M_jc[0] = 0;
-
-	int_t dim = nFR+nAC;
-	// Count the number of nonzeros
-	int_t numNonzeros;
-	switch ( hessianType )
-	{
-		case HST_ZERO:
-			numNonzeros = 0;
-			break;
-
-		case HST_IDENTITY:
-			numNonzeros = nFR;
-			break;
-
-		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
-			break;
-	}
-	// TODO: For now, we regularize every time
-	if (options.epsRegularisation > 0.0)
-		numNonzeros += nFR;
-
-	int_t numNonzerosA;
-
-	if ( constraintProduct != 0 )
-	{
-		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-	}
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
-	numNonzeros += numNonzerosA;
-
-	// Get the values
-	real_t* avals = new real_t[numNonzeros];
-	int_t* irn = new int_t[numNonzeros];
-	int_t* jcn = new int_t[numNonzeros];
-	numNonzeros = 0;
-	switch ( hessianType )
-	{
-		case HST_ZERO:
-			break;
-
-		case HST_IDENTITY:
-			numNonzeros += nFR;
-			for (j = 0; j<nFR; j++)
-			{
-				irn[j] = j+1;
-				jcn[j] = j+1;
-				avals[j] = 1.0;
-			}
-			break;
-
-		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
-			break;
-	}
-
-	// For now, we regularize every time
-	if (options.epsRegularisation > 0.0)
-	{
-		for (j = 0; j<nFR; j++)
-		{
-			irn[numNonzeros] = j+1;
-			jcn[numNonzeros] = j+1;
-			avals[numNonzeros++] = options.epsRegularisation;
-		}
-	}
-
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
-	numNonzeros += numNonzerosA;
-
-	// Call the linear solver
-	sparseSolver->reset();
-	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
-	delete [] jcn;
-	delete [] irn;
-	delete [] avals;
-	
-	if (retval != SUCCESSFUL_RETURN)
-		return THROWERROR(RET_NO_SPARSE_SOLVER);
-
-	// Factorize the matrix for later backsolves
-	retval = sparseSolver->factorize();
-	numFactorizations++;
-
-	// If matrix is singular, add bounds/remove constraints according to zero pivots
-	if (retval == RET_KKT_MATRIX_SINGULAR)
-	{
-		if( repairSingularWorkingSet( ) == SUCCESSFUL_RETURN )
-			return resetSchurComplement( allowInertiaCorrection );
-		else
-			return RET_KKT_MATRIX_SINGULAR;
-	}
-
-	// If matrix has wrong inertia, add bounds until inertia is correct
-	if (retval == SUCCESSFUL_RETURN && allowInertiaCorrection)
-	{
-		int_t neig = sparseSolver->getNegativeEigenvalues( );
-		if( neig > getNAC( ) )
-		{
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: After new factorization, reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-			retval = correctInertia();
-		}
-	}
-
-	if (retval != SUCCESSFUL_RETURN)
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
-
-	nS = 0;
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::computeMTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
-{
-	if ( isEqual( alpha, -1.0 ) == BT_FALSE || isEqual( beta, 1.0 ) == BT_FALSE )
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-
-	int_t i, j;
-
-	for ( j=0; j<nS; j++ )
-	{
-		const real_t xval = x_[j];
-		for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-			y_[M_ir[i]] -= M_vals[i]*xval;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::computeMTransTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
-{
-	if ( isEqual( alpha, 1.0 ) == BT_FALSE || ( isZero( beta ) == BT_FALSE && isEqual( beta, -1.0 ) == BT_FALSE ) )
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-
-	int_t i, j;
-
-	if ( isZero( beta ) == BT_TRUE )
-	{
-		for ( j=0; j<nS; j++ )
-		{
-			y_[j] = 0.0;
-			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-				y_[j] += M_vals[i]*x_[M_ir[i]];
-		}
-	}
-	else
-	{
-		for ( j=0; j<nS; j++ )
-		{
-			y_[j] = -y_[j];
-			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-				y_[j] += M_vals[i]*x_[M_ir[i]];
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType update, int_t numNonzerosM, const sparse_int_t* Mpos, const real_t* const Mvals, int_t numNonzerosN, const sparse_int_t* Npos, const real_t* const Nvals, real_t N_diag )
-{
-	int_t i;
-
-	int_t nFRStart = boundsFreeStart.getLength();
-	int_t nACStart = constraintsActiveStart.getLength();
-
-	real_t* new_Scol = new real_t[nS];
-
-	int_t dim = nFRStart + nACStart;
-	real_t* rhs = new real_t[dim];
-	real_t* sol = new real_t[dim];
-
-	for ( i=0; i<dim; i++ )
-		rhs[i] = 0.0;
-
-	for ( i=0; i<numNonzerosM; i++ )
-		rhs[Mpos[i]] = Mvals[i];
-
-	returnValue retval = sparseSolver->solve(dim, rhs, sol);
-	if (retval != SUCCESSFUL_RETURN)
-	{
-		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-	}
-
-	computeMTransTimes(1.0, sol, 0.0, new_Scol);
-
-	/* Take care of off-diagonal elements in N. */
-	for ( i=0; i<numNonzerosN; i++ )
-		new_Scol[Npos[i]] -= Nvals[i];
-
-	real_t sdiag = -N_diag;
-	for ( i=0; i<numNonzerosM; i++ )
-		sdiag += Mvals[i] * sol[Mpos[i]];
-
-	/* Now augment S */
-	for ( i=0; i<nS; i++)
-		S[nS*nSmax + i] = new_Scol[i];
-	for ( i=0; i<nS; i++)
-		S[i*nSmax + nS] = new_Scol[i];
-	S[nS*nSmax + nS] = sdiag;
-
-	schurUpdateIndex[nS] = number;
-	schurUpdate[nS] = update;
-
-	/* Augment M matrix.  */
-	if ( M_physicallength < M_jc[nS] + numNonzerosM )
-	{
-		/* If necessary, allocate more memory for M. */
-		int_t M_physicallength_new = getMax(2*M_physicallength, M_physicallength + 2*numNonzerosM);
-		real_t* M_vals_new = new real_t[M_physicallength_new];
-		sparse_int_t* M_ir_new = new sparse_int_t[M_physicallength_new];
-		memcpy( M_vals_new, M_vals, ((unsigned int)(M_jc[nS]))*sizeof(real_t) );
-		memcpy( M_ir_new, M_ir, ((unsigned int)(M_jc[nS]))*sizeof(sparse_int_t) );
-		M_physicallength = M_physicallength_new;
-		delete [] M_vals;
-		delete [] M_ir;
-		M_vals = M_vals_new;
-		M_ir = M_ir_new;
-	}
-
-	for ( i=0; i<numNonzerosM; i++ )
-	{
-		M_vals[M_jc[nS] + i] = Mvals[i];
-		M_ir[M_jc[nS] + i] = Mpos[i];
-	}
-	M_jc[nS+1] = M_jc[nS] + numNonzerosM;
-
-	nS++;
-
-	delete [] sol;
-	delete [] rhs;
-	delete [] new_Scol;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "added index %d with update type %d to Schur complement.  nS = %d\n", number, update, nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType allowUndo )
-{
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "deleting entry %d with idx = %d and type %d from Schur complement.", idx, schurUpdateIndex[idx], schurUpdate[idx]);
-
-	if ( idx != nS-1 )
-	{
-		real_t *temp_vals = NULL;
-		int_t *temp_ir = NULL;
-		int_t schurUpdateIndexTemp = -1;
-		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
-
-		/* temporarily save the column of S to be deleted */
-		if( allowUndo == BT_TRUE )
-		{
-			temp_vals = new real_t[nS];
-			for ( int_t i=0; i<nS; i++ )
-				temp_vals[i] = S[idx*nSmax + i];
-
-			schurUpdateIndexTemp = schurUpdateIndex[idx];
-			schurUpdateTemp = schurUpdate[idx];
-		}
-
-		/* Shift rows and columns >idx of S by one to the upper left */
-		for ( int_t i=0; i<idx; i++ )
-			for ( int_t j=idx+1; j<nS; j++ )
-				S[i*nSmax + j-1] = S[i*nSmax + j];
-		for ( int_t i=idx+1; i<nS; i++ )
-		{
-			for ( int_t j=0; j<idx; j++ )
-				S[(i-1)*nSmax + j] = S[i*nSmax + j];
-			for ( int_t j=idx+1; j<nS; j++ )
-				S[(i-1)*nSmax + j-1] = S[i*nSmax + j];
-		}
-		for ( int_t i=idx+1; i<nS; i++ )
-		{
-			schurUpdateIndex[i-1] = schurUpdateIndex[i];
-			schurUpdate[i-1] = schurUpdate[i];
-		}
-
-		/* Store deleted row/column in the last row/column of S, can retrieve it from there later */
-		if( allowUndo == BT_TRUE )
-		{
-			for ( int_t i=0; i<nS; i++ )
-			{
-				S[(nS-1)*nSmax + i] = temp_vals[i];
-				S[i*nSmax + (nS-1)] = temp_vals[i];
-			}
-			schurUpdateIndex[nS-1] = schurUpdateIndexTemp;
-			schurUpdate[nS-1] = schurUpdateTemp;
-			delete[] temp_vals;
-		}
-
-		/* temporarily save the (sparse) column of M to be deleted */
-		int_t numEntries = M_jc[idx+1] - M_jc[idx];
-		if( allowUndo == BT_TRUE )
-		{
-			temp_ir = new int_t[numEntries];
-			temp_vals = new real_t[numEntries];
-
-			for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
-			{
-				temp_ir[i-M_jc[idx]] = M_ir[i];
-				temp_vals[i-M_jc[idx]] = M_vals[i];
-			}
-		}
-
-		/* Shift all columns >idx one to the left */
-		for ( int_t i=M_jc[idx+1]; i<M_jc[nS]; i++ )
-		{
-			M_ir[i-numEntries] = M_ir[i];
-			M_vals[i-numEntries] = M_vals[i];
-		}
-		for ( int_t i=idx; i<nS; i++ )
-			M_jc[i] = M_jc[i+1] - numEntries;
-
-		/* Store deleted column of M in the last column, can retrieve it from there later */
-		if( allowUndo == BT_TRUE )
-		{
-			for ( int_t i=M_jc[nS-1]; i<M_jc[nS]; i++ )
-			{
-				M_ir[i] = temp_ir[i-M_jc[nS-1]];
-				M_vals[i] = temp_vals[i-M_jc[nS-1]];
-			}
-
-			delete[] temp_ir;
-			delete[] temp_vals;
-		}
-	}
-
-	nS--;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "  nS = %d\n", nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
-{
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
-
-	if ( idx != nS )
-	{
-		real_t *temp_vals;
-		int_t *temp_ir;
-		int_t schurUpdateIndexTemp = -1;
-		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
-
-		/* temporarily save the last column of S */
-		temp_vals = new real_t[nS+1];
-		for ( int_t i=0; i<nS+1; i++ )
-			temp_vals[i] = S[i+nS*nSmax];
-
-		schurUpdateIndexTemp = schurUpdateIndex[nS];
-		schurUpdateTemp = schurUpdate[nS];
-
-		/* Shift rows and columns =>idx of S by one to the lower right */
-		for ( int_t i=idx-1; i>-1; i-- )
-			for ( int_t j=nS-1; j>idx-1; j-- )
-				S[(j+1)+i*nSmax] = S[j+i*nSmax];
-		for ( int_t i=nS-1; i>idx-1; i-- )
-		{
-			for ( int_t j=idx-1; j>-1; j-- )
-				S[j+(i+1)*nSmax] = S[j+i*nSmax];
-			for ( int_t j=nS-1; j>idx-1; j-- )
-				S[(j+1)+(i+1)*nSmax] = S[j+i*nSmax];
-		}
-		for ( int_t i=nS-1; i>idx-1; i-- )
-		{
-			schurUpdateIndex[i+1] = schurUpdateIndex[i];
-			schurUpdate[i+1] = schurUpdate[i];
-		}
-
-		/* Insert stored row/column of S at position idx */
-		for ( int_t i=0; i<nS+1; i++ )
-		{
-			S[idx*nSmax + i] = temp_vals[i];
-			S[i*nSmax + idx] = temp_vals[i];
-		}
-		schurUpdateIndex[idx] = schurUpdateIndexTemp;
-		schurUpdate[idx] = schurUpdateTemp;
-		delete[] temp_vals;
-
-		/* temporarily save the last (sparse) column of M */
-		int_t numEntries = M_jc[nS+1] - M_jc[nS];
-		temp_ir = new int_t[numEntries];
-		temp_vals = new real_t[numEntries];
-		for ( int_t i=M_jc[nS]; i<M_jc[nS+1]; i++ )
-		{
-			temp_ir[i-M_jc[nS]] = M_ir[i];
-			temp_vals[i-M_jc[nS]] = M_vals[i];
-		}
-
-		/* Shift all columns =>idx one to the right */
-		for ( int_t i=M_jc[nS]-1; i>M_jc[idx]-1; i-- )
-		{
-			M_ir[i+numEntries] = M_ir[i];
-			M_vals[i+numEntries] = M_vals[i];
-		}
-		for ( int_t i=nS; i>idx-1; i-- )
-			M_jc[i+1] = M_jc[i] + numEntries;
-
-		/* Insert stored column of M at position idx */
-		for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
-		{
-			M_ir[i] = temp_ir[i-M_jc[idx]];
-			M_vals[i] = temp_vals[i-M_jc[idx]];
-		}
-
-		delete[] temp_ir;
-		delete[] temp_vals;
-	}
-
-	nS++;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "  nS = %d\n", nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::correctInertia( )
-{
-	SubjectToStatus B_status;
-	real_t oldDetS;
-	int_t nFR = getNFR( );
-	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
-	int_t *numberarray;
-
-	/* method may only be called after refactorization or if one bound/constraint
-	 * has been added, i.e. when a bound has flipped after refactorization */
-	if( nS != 0 && nS != 1 )
-		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-	neig = sparseSolver->getNegativeEigenvalues( );
-
-	/* if a bound flipped, check if it did in fact remove a negative eigenvalue */
-	if( nS == 1 && detS < 0 )
-		neig--;
-
-	/* if this method is triggered after flipping bounds, inertia is now probably correct */
-	if( neig == getNAC( ) )
-		return SUCCESSFUL_RETURN;
-
-	/* get bound numbers in the order in which they are in the non-basis */
-	bounds.getFree()->getNumberArray( &numberarray );
-	for( k=0; k<nFR; k++ )
-		freeBoundIdx[k] = numberarray[k];
-
-	k = 0;
-	nAdded = getNFR( );
-	while ( neig > getNAC( ) && k < nFR )
-	{
-		oldDetS = detS;
-
-		/* If it's linearly independent, fix the next free variable at the nearest bound */
-		number = freeBoundIdx[k];
-		if( addBound_checkLI( number ) == RET_LINEARLY_INDEPENDENT )
-		{
-			/* This is just heuristics: we need the bound which gives correct multiplier sign */
-			if ( x[number] - lb[number] < ub[number] - x[number] )
-				B_status = ST_LOWER;
-			else
-				B_status = ST_UPPER;
-
-			/* Update Schur complement */
-			if( addBound( number, B_status, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
-				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-			}
-
-			/* Adjust bounds */
-			if ( B_status == ST_LOWER )
-				lb[number] = x[number];
-			else
-				ub[number] = x[number];
-		}
-		else
-		{
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf("bound[%i] = %i is linearly dependent. Do not add.\n", k, number );
-			k++;
-			continue;
-		}
-
-		/* Case 1: Schur complement has been reset, check inertia of new factorization */
-		if( nS == 0 )
-			neig = sparseSolver->getNegativeEigenvalues( );
-		/* Case 2: Schur complement has grown, check if determinant changed sign */
-		else if( oldDetS * detS < 0 )
-			neig--;
-		/* NB: Case 3: (Schur complement has shrunk) cannot happen here:
-		 * This method is called after a factorization reset or after ONE bound has been added */
-
-		k++;
-	}
-	nAdded -= getNFR( );
-
-	delete[] freeBoundIdx;
-
-	/* if there are still too many negative eigenvalues, exit */
-	if( neig > getNAC( ) )
-	{
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "Added %i bounds but KKT matrix still has %i negative eigenvalues, should be %i.\n", nAdded, neig, getNAC( ) );
-		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-	}
-	else
-	{
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "After adding %i bounds, reduced Hessian has correct inertia.\n", nAdded, neig );
-		return SUCCESSFUL_RETURN;
-	}
-}
-
-
-returnValue SQProblemSchur::repairSingularWorkingSet( )
-{
-	int_t k, number;
-	SubjectToStatus B_status;
-	int_t rank = sparseSolver->getRank( );
-	int_t nFR = getNFR( );
-	int_t defect = nFR + getNAC( ) - rank;
-
-	/* Rank detection not supported by linear solver */
-	if ( rank < 0 )
-		return RET_KKT_MATRIX_SINGULAR;
-
-	/* Consistency check */
-	if ( defect <= 0 )
-		return RET_UNKNOWN_BUG;
-
-	/* Determine zero pivots */
-	int_t *zeroPivots = new int_t[defect];
-	sparseSolver->getZeroPivots( zeroPivots );
-
-	/* Determination of zero pivots not supported by linear solver */
-	if ( zeroPivots == 0 )
-		return RET_KKT_MATRIX_SINGULAR;
-
-	/* We assume implicitly that pivots are sorted in ascending order */
-	/// \todo make sure that this is so.
-	/* Remove the one with the highest index first so not to mess up index lists */
-	int_t bndsAdded = 0;
-	for ( k=defect-1; k>-1; k-- )
-	{
-		/* Zero curvature in the Hessian: add a bound */
-		if ( zeroPivots[k] < nFR )
-		{
-			number = bounds.getFree()->getNumber( zeroPivots[k] );
-
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: KKT matrix singular! Add bound %i before refactorization.\n", number);
-
-			/* This is just heuristics: we need the bound which gives correct multiplier sign */
-			if ( x[number] - lb[number] < ub[number] - x[number] )
-				B_status = ST_LOWER;
-			else
-				B_status = ST_UPPER;
-
-			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
-			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
-				return RET_ADDBOUND_FAILED;
-
-			/* Adjust bounds */
-			if ( B_status == ST_LOWER )
-				lb[number] = x[number];
-			else
-				ub[number] = x[number];
-
-			bndsAdded++;
-		}
-		/* Linearly dependent row in the Jacobian: remove a constraint */
-		else
-		{
-			number = constraints.getActive()->getNumber( zeroPivots[k]-nFR );
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
-
-			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
-				return RET_REMOVECONSTRAINT_FAILED;
-
-			// AW: If this is an equality constraint, it is now inactive and
-			// will not be considered in the step computation which leads to
-			// violation of that constraint in the future. Here, I try to
-			// fix this by simply making this constraint no longer an
-			// equality.
-			// TODO: This is probably also necessary for bound constraints
-			if ( constraints.getType(number) == ST_EQUALITY )
-			{
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf( "WARNING: Making this constraint no longer an equality.\n");
-				constraints.setType( number, ST_BOUNDED );
-			}
-
-			/* Adjust dual variable */
-			y[number] = 0.0;
-		}
-	}
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: KKT matrix singular! Removed %i constraints and added %i bounds before refactorization.\n",
-					defect-bndsAdded, bndsAdded );
-
-	delete[] zeroPivots;
-
-	return SUCCESSFUL_RETURN;
-}
-
-END_NAMESPACE_QPOASES
-
-
-/*
- *	end of file
- */
+/*
+ *	This file is part of qpOASES.
+ *
+ *	qpOASES -- An Implementation of the Online Active Set Strategy.
+ *	Copyright (C) 2007-2014 by Hans Joachim Ferreau, Andreas Potschka,
+ *	Christian Kirches et al. All rights reserved.
+ *
+ *	qpOASES is free software; you can redistribute it and/or
+ *	modify it under the terms of the GNU Lesser General Public
+ *	License as published by the Free Software Foundation; either
+ *	version 2.1 of the License, or (at your option) any later version.
+ *
+ *	qpOASES is distributed in the hope that it will be useful,
+ *	but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
+ *	See the GNU Lesser General Public License for more details.
+ *
+ *	You should have received a copy of the GNU Lesser General Public
+ *	License along with qpOASES; if not, write to the Free Software
+ *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
+ *
+ */
+
+
+/**
+ *	\file src/SQProblemSchur.cpp
+ *	\author Andreas Waechter and Dennis Janka, based on QProblem.cpp by Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
+ *	\version 3.2
+ *	\date 2012-2017
+ *
+ *	Implementation of the SQProblemSchur class which is able to use the newly
+ *	developed online active set strategy for parametric quadratic programming.
+ *	This implementation uses a Schur complement approach to solve the linear
+ *	systems.
+ */
+
+#include <qpOASES/SQProblemSchur.hpp>
+#include <qpOASES/LapackBlasReplacement.hpp>
+
+
+#ifndef __MATLAB__
+# include <cstdarg>
+void MyPrintf(const char* pformat, ... )
+{
+  va_list ap;
+
+  /* no output if error messages have been switched off (print level PL_NONE) */
+  if ( REFER_NAMESPACE_QPOASES getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == REFER_NAMESPACE_QPOASES VS_HIDDEN )
+    return;
+
+  va_start(ap, pformat);
+
+  vfprintf(stdout, pformat, ap);
+
+  va_end(ap);
+}
+#else
+# include <mex.h>
+# define MyPrintf mexPrintf
+#endif
+
+
+BEGIN_NAMESPACE_QPOASES
+
+
+/*****************************************************************************
+ *  P U B L I C                                                              *
+ *****************************************************************************/
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( ) : SQProblem( )
+{
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+
+	nSmax = 0;
+	nS = -1;
+	S = 0;
+	Q_ = 0;
+	R_ = 0;
+	detS = 0.0;
+	rcondS = 0.0;
+	schurUpdateIndex = 0;
+	schurUpdate = 0;
+	numFactorizations = 0;
+
+	M_physicallength = 0;
+	M_vals = 0;
+	M_ir = 0;
+	M_jc = 0;
+}
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( int_t _nV, int_t _nC, HessianType _hessianType, int_t maxSchurUpdates ) 
+	: SQProblem( _nV,_nC,_hessianType, BT_FALSE )
+{
+	/* The interface to the sparse linear solver.  In the long run,
+	   different linear solvers might be optionally chosen. */
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+
+	nSmax = maxSchurUpdates;
+	nS = -1;
+	if ( nSmax > 0 )
+	{
+		S = new real_t[nSmax*nSmax];
+		schurUpdateIndex = new int_t[nSmax];
+		schurUpdate = new SchurUpdateType[nSmax];
+		Q_ = new real_t[nSmax*nSmax];
+		R_ = new real_t[nSmax*nSmax];
+		M_physicallength = 10*nSmax;  /* TODO: Decide good default. */
+		M_vals = new real_t[M_physicallength];
+		M_ir = new sparse_int_t[M_physicallength];
+		M_jc = new sparse_int_t[nSmax+1];
+		detS = 1.0;
+		rcondS = 1.0;
+	}
+	else
+	{
+		S = 0;
+		Q_ = 0;
+		R_ = 0;
+		detS = 0.0;
+		rcondS = 0.0;
+		schurUpdateIndex = 0;
+		schurUpdate = 0;
+		M_physicallength = 0;
+		M_vals = 0;
+		M_ir = 0;
+		M_jc = 0;
+	}
+	numFactorizations = 0;
+}
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( const SQProblemSchur& rhs ) : SQProblem( rhs )
+{
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+	copy( rhs );
+}
+
+
+/*
+ *	~ Q P r o b l e m
+ */
+SQProblemSchur::~SQProblemSchur( )
+{
+	delete sparseSolver;
+
+	clear( );
+}
+
+
+/*
+ *	o p e r a t o r =
+ */
+SQProblemSchur& SQProblemSchur::operator=( const SQProblemSchur& rhs )
+{
+	if ( this != &rhs )
+	{
+		clear( );
+		SQProblem::operator=( rhs );
+		copy( rhs );
+	}
+	return *this;
+}
+
+
+/*
+ *	r e s e t
+ */
+returnValue SQProblemSchur::reset( )
+{
+	/* AW: We probably want to avoid resetting factorization in QProblem */
+	if ( SQProblem::reset( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_RESET_FAILED );
+
+	sparseSolver->reset();
+	nS = -1;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*****************************************************************************
+ *  P R O T E C T E D                                                        *
+ *****************************************************************************/
+
+/*
+ *	c l e a r
+ */
+returnValue SQProblemSchur::clear( )
+{
+	nSmax = 0;
+	nS = -1;
+	detS = 0.0;
+	rcondS = 0.0;
+	numFactorizations = 0;
+	delete [] S; S=0;
+	delete [] Q_; Q_=0;
+	delete [] R_; R_=0;
+	delete [] schurUpdateIndex; schurUpdateIndex=0;
+	delete [] schurUpdate; schurUpdate=0;
+	M_physicallength = 0;
+	delete [] M_vals; M_vals=0;
+	delete [] M_ir; M_ir=0;
+	delete [] M_jc; M_jc=0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	c o p y
+ */
+returnValue SQProblemSchur::copy(	const SQProblemSchur& rhs
+									)
+{
+	int_t i, j, length;
+
+	*sparseSolver = *(rhs.sparseSolver);
+
+	nS = rhs.nS;
+	nSmax = rhs.nSmax;
+	if ( nSmax > 0 )
+	{
+		detS = rhs.detS;
+		rcondS = rhs.rcondS;
+		S = new real_t[nSmax*nSmax];
+		Q_ = new real_t[nSmax*nSmax];
+		R_ = new real_t[nSmax*nSmax];
+		schurUpdateIndex = new int_t[nSmax];
+		schurUpdate = new SchurUpdateType[nSmax];
+
+		if ( nS>0 )
+		{
+			for ( i=0; i<nS; i++)
+				for ( j=0; j<nS; j++)
+				{
+					S[i*nSmax + j] = rhs.S[i*nSmax + j];
+					Q_[i*nSmax + j] = rhs.Q_[i*nSmax + j];
+					R_[i*nSmax + j] = rhs.R_[i*nSmax + j];
+				}
+
+			memcpy( schurUpdateIndex, rhs.schurUpdateIndex, ((unsigned int)nS)*sizeof(int_t));
+			memcpy( schurUpdate, rhs.schurUpdate, ((unsigned int)nS)*sizeof(SchurUpdateType));
+		}
+
+		M_physicallength = rhs.M_physicallength;
+		if ( M_physicallength>0 )
+		{
+			M_vals = new real_t[M_physicallength];
+			M_ir = new sparse_int_t[M_physicallength];
+			M_jc = new sparse_int_t[nSmax+1];
+
+			if ( nS>0 )
+			{
+				memcpy(M_jc, rhs.M_jc, ((unsigned int)(nS+1))*sizeof(sparse_int_t));
+				length = M_jc[nS];
+				memcpy(M_vals, rhs.M_vals, ((unsigned int)length)*sizeof(real_t));
+				memcpy(M_ir, rhs.M_ir, ((unsigned int)length)*sizeof(sparse_int_t));
+			}
+			else if ( nS==0 )
+				M_jc[0] = rhs.M_jc[0];
+		}
+	}
+	else
+	{
+		S = 0;
+		Q_ = 0;
+		R_ = 0;
+		detS = 0.0;
+		rcondS = 0.0;
+		schurUpdateIndex = 0;
+		schurUpdate = 0;
+		M_physicallength = 0;
+		M_vals = 0;
+		M_ir = 0;
+		M_jc = 0;
+	}
+	numFactorizations = rhs.numFactorizations;
+
+	boundsFreeStart = rhs.boundsFreeStart;
+	constraintsActiveStart = rhs.constraintsActiveStart;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p A u x i l i a r y Q P
+ */
+returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
+												Matrix *A_new,
+												const real_t *lb_new,
+												const real_t *ub_new,
+												const real_t *lbA_new,
+												const real_t *ubA_new
+												)
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+	returnValue returnvalue;
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
+	}
+
+	status = QPS_PREPARINGAUXILIARYQP;
+
+
+	/* I) SETUP NEW QP MATRICES AND VECTORS: */
+	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
+	 *    that old optimal solution remains feasible for new QP data. */
+	/*    Firstly, shift by -A'*x_opt and ... */
+	if ( nC > 0 )
+	{
+		if ( A_new == 0 )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+
+		for ( i=0; i<nC; ++i )
+		{
+			lbA[i] = -Ax_l[i];
+			ubA[i] =  Ax_u[i];
+		}
+
+		/* Set constraint matrix as well as ... */
+		setA( A_new );
+
+		/* ... secondly, shift by +A_new'*x_opt. */
+		for ( i=0; i<nC; ++i )
+		{
+			lbA[i] += Ax[i];
+			ubA[i] += Ax[i];
+		}
+
+		/* update constraint products. */
+		for ( i=0; i<nC; ++i )
+		{
+			Ax_u[i] = ubA[i] - Ax[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+	}
+
+	/* 2) Set new Hessian matrix,determine Hessian type and
+	 *    regularise new Hessian matrix if necessary. */
+	/* a) Setup new Hessian matrix and determine its type. */
+	if ( H_new != 0 )
+	{
+		setH( H_new );
+
+		hessianType = HST_UNKNOWN;
+		if ( determineHessianType( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+		/* b) Regularise new Hessian if necessary. */
+		if ( ( hessianType == HST_ZERO ) ||
+			 ( hessianType == HST_SEMIDEF ) ||
+			 ( usingRegularisation( ) == BT_TRUE ) )
+		{
+			regVal = 0.0; /* reset previous regularisation */
+
+			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+	}
+	else
+	{
+		if ( H != 0 )
+			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+	}
+
+	/* 3) Setup QP gradient. */
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* II) SETUP WORKING SET AND MATRIX FACTORISATION: */
+
+	/* 1) Check if current active set is linearly independent and has the correct inertia */
+	returnvalue = resetSchurComplement( BT_FALSE );
+	int_t neig = sparseSolver->getNegativeEigenvalues( );
+
+	if ( returnvalue == SUCCESSFUL_RETURN && neig == getNAC( ) )
+	{
+		/* a) This means the proposed working set is linearly independent and
+		 *    leaves no zero curvature exposed in the nullspace and can be used to start QP solve. */
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "In hotstart for new matrices, old working set is linearly independent and has correct inertia.\n");
+
+		status = QPS_AUXILIARYQPSOLVED;
+		return SUCCESSFUL_RETURN;
+	}
+	else if ( returnvalue == SUCCESSFUL_RETURN && neig > getNAC( ) )
+	{
+		/* b) KKT matrix has too many negative eigenvalues. Try to correct the inertia by adding bounds (reduce nullspace dimension). */
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "WARNING: In hotstart for new matrices, reduced Hessian for initial working set has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+		/* If enabling inertia correction is disabled, exit here */
+		if ( options.enableInertiaCorrection )
+		{
+			returnvalue = correctInertia();
+			if ( returnvalue == SUCCESSFUL_RETURN )
+			{
+				status = QPS_AUXILIARYQPSOLVED;
+				return SUCCESSFUL_RETURN;
+			}
+		}
+		else
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+
+	/* 2) If inertia correction has failed or factorization yielded some other error,
+	 *    try to rebuild the active set with all simple bounds set according to initialStatusBounds
+	 *    (Note: in exact arithmetic, this cannot happen) */
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: hotstart for old active set failed. Trying to rebuild a working set.\n");
+
+	Bounds      oldBounds      = bounds;
+	Constraints oldConstraints = constraints;
+
+	/* Move all inactive variables to a bound */
+	for ( i=0; i<nV; i++ )
+	{
+		#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
+		if ( bounds.getType( i ) == ST_EQUALITY )
+		{
+			if ( oldBounds.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+		else
+		#endif
+		{
+			if ( oldBounds.getStatus( i ) == ST_INACTIVE )
+				if ( oldBounds.setStatus( i, options.initialStatusBounds ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+	}
+
+	/* Set all equalities active */
+	#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
+	for( i=0; i<nC; ++i )
+	{
+		if ( constraints.getType( i ) == ST_EQUALITY )
+			if ( oldConstraints.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+	#endif
+
+	/* Set all inequalities inactive */
+	for( i=0; i<nC; ++i )
+	{
+		if ( constraints.getType( i ) != ST_EQUALITY )
+			if ( oldConstraints.setStatus( i,ST_INACTIVE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+
+	/* Reset bounds and constraints */
+	bounds.init( nV );
+	constraints.init( nC );
+
+	if ( setupSubjectToType(lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	if ( bounds.setupAllFree( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	if ( constraints.setupAllInactive( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* Setup working sets afresh. */
+	if ( setupAuxiliaryWorkingSet( &oldBounds,&oldConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* adjust lb/ub */
+	for (int_t ii = 0; ii < nC; ++ii)
+		Ax_l[ii] = Ax_u[ii] = Ax[ii];
+	setupAuxiliaryQPbounds (&bounds, &constraints, BT_FALSE);
+
+	status = QPS_AUXILIARYQPSOLVED;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p A u x i l i a r y W o r k i n g S e t
+ */
+returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBounds,
+														const Constraints* const auxiliaryConstraints,
+														BooleanType setupAfresh
+														)
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+
+	/* consistency checks */
+	if ( auxiliaryBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+			if ( ( bounds.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryBounds->getStatus( i ) == ST_UNDEFINED ) )
+				return THROWERROR( RET_UNKNOWN_BUG );
+	}
+	else
+	{
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	if ( auxiliaryConstraints != 0 )
+	{
+		for( i=0; i<nC; ++i )
+			if ( ( constraints.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryConstraints->getStatus( i ) == ST_UNDEFINED ) )
+				return THROWERROR( RET_UNKNOWN_BUG );
+	}
+	else
+	{
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	/* I.) REMOVE INEQUALITY BOUNDS/CONSTRAINTS */
+
+	/* I.1) Remove inequality bounds that are active now but shall be
+	 *      inactive or active at the other bound according to auxiliaryBounds */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
+			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+		if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
+			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* I.2.) Remove inequality constraints that are active now but shall be
+	 *       inactive or active at the other bound according to auxiliaryConstraints */
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
+			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+		if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
+			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* II.) ADD BOUNDS/CONSTRAINTS */
+
+	/* II.1.) Add bounds according to auxiliaryBounds */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) )
+			if ( bounds.moveFreeToFixed( i, auxiliaryBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* II.2.) Add constraints according to auxiliaryConstraints */
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
+			if ( constraints.moveInactiveToActive( i,auxiliaryConstraints->getStatus( i ) ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* III) FACTORIZATION */
+
+	/* III.1.) Factorize (resolves linear dependency) */
+	if( resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+	/* III.2.) Check if inertia is correct. If so, we now have a linearly independent working set with a pos def reduced Hessian */
+	int_t neig = sparseSolver->getNegativeEigenvalues( );
+	if ( neig == getNAC( ) )
+	{
+		/* We now have a linearly independent working set with a pos def reduced Hessian.
+		 * We need to correct the QP bounds and gradient after this. */
+		return SUCCESSFUL_RETURN;
+	}
+
+	/* IV.) INERTIA CORRECTION IF NECESSARY */
+
+	/* We now have a fresh factorization and can start the usual inertia correction routine */
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: In setupAuxiliaryWorkingSet: Initial working set reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+	if ( options.enableInertiaCorrection == BT_TRUE )
+		return correctInertia( );
+	else
+		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+}
+
+
+/*
+ *	c h o l e s k y D e c o m p o s i t i o n P r o j e c t e d
+ */
+returnValue SQProblemSchur::computeProjectedCholesky( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	c o m p u t e I n i t i a l C h o l e s k y
+ */
+returnValue SQProblemSchur::computeInitialCholesky( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p T Q f a c t o r i s a t i o n
+ */
+returnValue SQProblemSchur::setupTQfactorisation( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	a d d C o n s t r a i n t
+ */
+returnValue SQProblemSchur::addConstraint(	int_t number, 
+											SubjectToStatus C_status,
+											BooleanType updateCholesky,
+											BooleanType ensureLI
+											)
+{
+	int_t idxDeleted = -1;
+
+	/* consistency checks */
+	if ( constraints.getStatus( number ) != ST_INACTIVE )
+		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
+
+	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
+		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+
+	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
+	 *    i.e. remove a constraint or bound if linear dependence occurs. */
+	if ( ensureLI == BT_TRUE )
+	{
+		returnValue ensureLIreturnvalue = addConstraint_ensureLI( number,C_status );
+
+		switch ( ensureLIreturnvalue )
+		{
+			case SUCCESSFUL_RETURN:
+				break;
+
+			case RET_LI_RESOLVED:
+				break;
+
+			case RET_ENSURELI_FAILED_NOINDEX:
+				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_FAILED_CYCLING:
+				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_DROPPED:
+				return SUCCESSFUL_RETURN;
+
+			default:
+				return THROWERROR( RET_ENSURELI_FAILED );
+		}
+	}
+
+	/* IV) UPDATE INDICES */
+	tabularOutput.idxAddC = number;
+	if ( constraints.moveInactiveToActive( number,C_status ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this constraint had been removed before. In that
+	   case delete this constraint from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_ConRemoved && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+			found = true;
+			idxDeleted = i;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Correct inertia if necessary. */
+			returnValue retval = resetSchurComplement( BT_TRUE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+			}
+			found = true;
+		}
+		else
+		{
+			/* If the constraint was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+
+			sparse_int_t* MNpos = new sparse_int_t[nFRStart+nS]; // This is an overestimate
+			real_t* MNvals = new real_t[nFRStart+nS];
+
+			int_t* irn = new int_t[nFRStart+nS];
+			int_t* jcn = new int_t[nFRStart+nS];
+			real_t* vals = new real_t[nFRStart+nS];
+			int_t* icolsNumber = new int_t[nFRStart+nS];
+			int_t* icolsSIdx = new int_t[nS];
+
+			for ( int_t i=0; i<nFRStart; i++)
+				icolsNumber[i] = FR_idxStart[i];
+
+			int_t icolsLength = nFRStart;
+			for ( int_t i=0; i<nS; i++)
+				if ( schurUpdate[i] == SUT_VarFreed )
+				{
+					icolsNumber[icolsLength] = schurUpdateIndex[i];
+					icolsSIdx[icolsLength-nFRStart] = i;
+					icolsLength++;
+				}
+
+			if ( constraintProduct != 0 )
+			{
+				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+			int_t numNonzerosA;
+			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
+			delete [] irn;
+
+			int_t numNonzerosM = 0;
+			int_t numNonzerosN = 0;
+			for ( int_t i=0; i<numNonzerosA; i++ )
+				if ( jcn[i] < nFRStart )
+				{
+					MNpos[numNonzerosM] = jcn[i];
+					MNvals[numNonzerosM] = vals[i];
+					numNonzerosM++;
+				}
+				else
+				{
+					MNpos[nFRStart+numNonzerosN] = icolsSIdx[jcn[i]-nFRStart];
+					MNvals[nFRStart+numNonzerosN] = vals[i];
+					numNonzerosN++;
+				}
+
+			returnValue returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
+
+			delete [] icolsSIdx;
+			delete [] icolsNumber;
+			delete [] vals;
+			delete [] jcn;
+			delete [] MNvals;
+			delete [] MNpos;
+
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+			found = true;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+	updateSchurQR( idxDeleted );
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR  && options.printLevel == PL_HIGH )
+				MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+
+/*
+ *	a d d C o n s t r a i n t _ c h e c k L I
+ */
+returnValue SQProblemSchur::addConstraint_checkLI( int_t number )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
+
+	delete [] xiB;
+	delete [] xiC;
+
+	return returnvalueCheckLI;
+}
+
+
+/*
+ *	a d d C o n s t r a i n t _ c h e c k L I S c h u r
+ */
+returnValue SQProblemSchur::addConstraint_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
+{
+	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
+
+	int_t ii;
+	int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nC  = getNC( );
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	int_t *FR_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+
+	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
+	{
+		/*
+		 * expensive LI test. Backsolve with refinement using special right
+		 * hand side. This gives an estimate for what should be considered
+		 * "zero". We then check linear independence relative to this estimate.
+		 */
+
+		int_t *FX_idx, *AC_idx, *IAC_idx;
+
+		real_t *delta_g   = new real_t[nV];
+		real_t *delta_xFX = new real_t[nFX];
+		real_t *delta_xFR = new real_t[nFR];
+		real_t *delta_yAC = xiC;
+		real_t *delta_yFX = xiB;
+
+		bounds.getFixed( )->getNumberArray( &FX_idx );
+		constraints.getActive( )->getNumberArray( &AC_idx );
+		constraints.getInactive( )->getNumberArray( &IAC_idx );
+
+		int_t dim = (nC>nV)?nC:nV;
+		real_t *nul = new real_t[dim];
+		for (ii = 0; ii < dim; ++ii)
+			nul[ii]=0.0;
+
+		A->getRow (number, 0, 1.0, delta_g);
+
+		returnValue dsdreturnvalue = determineStepDirection ( delta_g,
+											  nul, nul, nul, nul,
+											  BT_FALSE, BT_FALSE,
+											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
+			returnvalue = dsdreturnvalue;
+
+		delete[] nul;
+
+		/* compute the weight in inf-norm */
+		real_t weight = 0.0;
+		for (ii = 0; ii < nAC; ++ii)
+		{
+			real_t a = getAbs (delta_yAC[ii]);
+			if (weight < a) weight = a;
+		}
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_yFX[ii]);
+			if (weight < a) weight = a;
+		}
+
+		/* look at the "zero" in a relative inf-norm */
+		real_t zero = 0.0;
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_xFX[ii]);
+			if (zero < a) zero = a;
+		}
+		for (ii = 0; ii < nFR; ++ii)
+		{
+			real_t a = getAbs (delta_xFR[ii]);
+			if (zero < a) zero = a;
+		}
+
+		/* relative test against zero in inf-norm */
+		if (zero > options.epsLITests * weight)
+			returnvalue = RET_LINEARLY_INDEPENDENT;
+
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+		delete[] delta_g;
+
+	}
+	return THROWINFO( returnvalue );
+}
+
+
+/*
+ *	a d d C o n s t r a i n t _ e n s u r e L I
+ */
+returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatus C_status )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
+
+	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return THROWERROR( RET_ENSURELI_FAILED );
+	}
+
+	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return SUCCESSFUL_RETURN;
+	}
+
+ 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
+	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
+	int_t i, ii;
+
+	if ( C_status != ST_LOWER )
+	{
+		for( i=0; i<nAC; ++i )
+			xiC[i] = -xiC[i];
+		for( i=0; i<nFX; ++i )
+			xiB[i] = -xiB[i];
+	}
+
+	int_t nV  = getNV( );
+
+	int_t* FX_idx;
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+
+	int_t* AC_idx;
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+	real_t* num = new real_t[nV];
+
+	real_t y_min = options.maxDualJump;
+	int_t y_min_number = -1;
+	int_t y_min_number_bound = -1;
+	BooleanType y_min_isBound = BT_FALSE;
+
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
+
+	/* 1) Constraints. */
+	for( i=0; i<nAC; ++i )
+	{
+		ii = AC_idx[i];
+		num[i] = y[nV+ii];
+	}
+
+	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
+
+	/* 2) Bounds. */
+	for( i=0; i<nFX; ++i )
+	{
+		ii = FX_idx[i];
+		num[i] = y[ii];
+	}
+
+	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
+
+	if ( y_min_number_bound >= 0 )
+	{
+		y_min_number = y_min_number_bound;
+		y_min_isBound = BT_TRUE;
+	}
+
+	#ifndef __XPCTARGET__
+	/* setup output preferences */
+	char messageString[80];
+	#endif
+
+	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
+	if ( y_min_number >= 0 )
+	{
+		/* Update Lagrange multiplier... */
+		for( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			y[nV+ii] -= y_min * xiC[i];
+		}
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+			y[ii] -= y_min * xiB[i];
+		}
+
+		/* ... also for newly active constraint... */
+		if ( C_status == ST_LOWER )
+			y[nV+number] = y_min;
+		else
+			y[nV+number] = -y_min;
+
+		/* ... and for constraint to be removed. */
+		if ( y_min_isBound == BT_TRUE )
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemB = 1;
+
+			y[y_min_number] = 0.0;
+		}
+		else
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemC = 1;
+
+			y[nV+y_min_number] = 0.0;
+		}
+	}
+	else
+	{
+		if (options.enableDropInfeasibles == BT_TRUE) {
+			/* dropping of infeasible constraints according to drop priorities */
+			returnvalue = dropInfeasibles (number, C_status, BT_FALSE, xiB, xiC);
+		}
+		else
+		{
+			/* no constraint/bound can be removed => QP is infeasible! */
+			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
+			setInfeasibilityFlag( returnvalue );
+		}
+	}
+
+farewell:
+	delete[] num;
+	delete [] xiB;
+	delete [] xiC;
+
+	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+
+	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
+}
+
+
+/*
+ *	a d d B o u n d
+ */
+returnValue SQProblemSchur::addBound(	int_t number,
+										SubjectToStatus B_status,
+										BooleanType updateCholesky,
+										BooleanType ensureLI
+										)
+{
+	int_t idxDeleted = -1;
+
+	/* consistency checks */
+	if ( bounds.getStatus( number ) != ST_INACTIVE )
+		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
+
+	if ( getNFR( ) == bounds.getNUV( ) )
+		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+
+	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
+	 *    i.e. remove a constraint or bound if linear dependence occurs. */
+	if ( ensureLI == BT_TRUE )
+	{
+		returnValue ensureLIreturnvalue = addBound_ensureLI( number,B_status );
+
+		switch ( ensureLIreturnvalue )
+		{
+			case SUCCESSFUL_RETURN:
+				break;
+
+			case RET_LI_RESOLVED:
+				break;
+
+			case RET_ENSURELI_FAILED_NOINDEX:
+				return RET_ADDBOUND_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_FAILED_CYCLING:
+				return RET_ADDBOUND_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_DROPPED:
+				return SUCCESSFUL_RETURN;
+
+			default:
+				return THROWERROR( RET_ENSURELI_FAILED );
+		}
+	}
+
+	/* II) UPDATE INDICES */
+	tabularOutput.idxAddB = number;
+	if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDBOUND_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this variable had been freed before. In that
+	   case delete this variable from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_VarFreed && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDBOUND_FAILED );
+			found = true;
+			idxDeleted = i;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Correct inertia if necessary. */
+			returnValue retval = resetSchurComplement( BT_TRUE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_ADDBOUND_FAILED );
+			}
+			found = true;
+		}
+		else
+		{
+			/* If the variable was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+			for ( int_t i=0; i<nFRStart; i++ )
+				if ( FR_idxStart[i] == number )
+				{
+					real_t one = 1.0;
+					sparse_int_t pos = i;
+					if ( addToSchurComplement( number, SUT_VarFixed, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_ADDBOUND_FAILED );
+					found = true;
+					break;
+				}
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_ADDBOUND_FAILED );
+
+	updateSchurQR( idxDeleted );
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	a d d B o u n d _ c h e c k L I
+ */
+returnValue SQProblemSchur::addBound_checkLI( int_t number )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
+
+	delete [] xiB;
+	delete [] xiC;
+
+	return returnvalueCheckLI;
+}
+
+/*
+ *	a d d B o u n d _ c h e c k L I S c h u r
+ */
+returnValue SQProblemSchur::addBound_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
+{
+	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
+
+
+	int_t ii;
+	int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nC  = getNC( );
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	int_t *FR_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+
+	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
+	{
+		/*
+		 * expensive LI test. Backsolve with refinement using special right
+		 * hand side. This gives an estimate for what should be considered
+		 * "zero". We then check linear independence relative to this estimate.
+		 */
+
+		real_t *delta_g   = new real_t[nV];
+		real_t *delta_xFX = new real_t[nFX];
+		real_t *delta_xFR = new real_t[nFR];
+		real_t *delta_yAC = xiC;
+		real_t *delta_yFX = xiB;
+
+		for (ii = 0; ii < nV; ++ii)
+			delta_g[ii] = 0.0;
+		delta_g[number] = 1.0;
+
+		int_t dim = (nC>nV)?nC:nV;
+		real_t *nul = new real_t[dim];
+		for (ii = 0; ii < dim; ++ii)
+			nul[ii]=0.0;
+
+		returnValue dsdReturnValue = determineStepDirection (
+				delta_g, nul, nul, nul, nul, BT_FALSE, BT_FALSE,
+				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		if (dsdReturnValue != SUCCESSFUL_RETURN)
+			returnvalue = dsdReturnValue;
+
+		/* compute the weight in inf-norm */
+		real_t weight = 0.0;
+		for (ii = 0; ii < nAC; ++ii)
+		{
+			real_t a = getAbs (delta_yAC[ii]);
+			if (weight < a) weight = a;
+		}
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_yFX[ii]);
+			if (weight < a) weight = a;
+		}
+
+		/* look at the "zero" in a relative inf-norm */
+		real_t zero = 0.0;
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_xFX[ii]);
+			if (zero < a) zero = a;
+		}
+		for (ii = 0; ii < nFR; ++ii)
+		{
+			real_t a = getAbs (delta_xFR[ii]);
+			if (zero < a) zero = a;
+		}
+
+		/* relative test against zero in inf-norm */
+		if (zero > options.epsLITests * weight)
+			returnvalue = RET_LINEARLY_INDEPENDENT;
+
+		delete[] nul;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+		delete[] delta_g;
+
+	}
+	return THROWINFO( returnvalue );
+}
+
+
+/*
+ *	a d d B o u n d _ e n s u r e L I
+ */
+returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_status )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
+
+	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return THROWERROR( RET_ENSURELI_FAILED );
+	}
+
+	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return SUCCESSFUL_RETURN;
+	}
+
+ 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
+	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
+	int_t i, ii;
+
+	if ( B_status != ST_LOWER )
+	{
+		for( i=0; i<nAC; ++i )
+			xiC[i] = -xiC[i];
+		for( i=0; i<nFX; ++i )
+			xiB[i] = -xiB[i];
+	}
+
+	int_t nV  = getNV( );
+
+	int_t* FX_idx;
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+
+	int_t* AC_idx;
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+	real_t* num = new real_t[nV];
+
+	real_t y_min = options.maxDualJump;
+	int_t y_min_number = -1;
+	int_t y_min_number_bound = -1;
+	BooleanType y_min_isBound = BT_FALSE;
+
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
+
+	/* 1) Constraints. */
+	for( i=0; i<nAC; ++i )
+	{
+		ii = AC_idx[i];
+		num[i] = y[nV+ii];
+	}
+
+	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum, options.epsDen, y_min,y_min_number );
+
+	/* 2) Bounds. */
+	for( i=0; i<nFX; ++i )
+	{
+		ii = FX_idx[i];
+		num[i] = y[ii];
+	}
+
+	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum, options.epsDen, y_min,y_min_number_bound );
+
+	if ( y_min_number_bound >= 0 )
+	{
+		y_min_number = y_min_number_bound;
+		y_min_isBound = BT_TRUE;
+	}
+
+	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
+	char messageString[80];
+
+	if ( y_min_number >= 0 )
+	{
+		/* Update Lagrange multiplier... */
+		for( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			y[nV+ii] -= y_min * xiC[i];
+		}
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+			y[ii] -= y_min * xiB[i];
+		}
+
+		/* ... also for newly active bound ... */
+		if ( B_status == ST_LOWER )
+			y[number] = y_min;
+		else
+			y[number] = -y_min;
+
+		/* ... and for bound to be removed. */
+		if ( y_min_isBound == BT_TRUE )
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemB = 1;
+
+			y[y_min_number] = 0.0;
+		}
+		else
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemC = 1;
+
+			y[nV+y_min_number] = 0.0;
+		}
+	}
+	else
+	{
+		if (options.enableDropInfeasibles == BT_TRUE) {
+			/* dropping of infeasible constraints according to drop priorities */
+			returnvalue = dropInfeasibles (number, B_status, BT_TRUE, xiB, xiC);
+		}
+		else
+		{
+			/* no constraint/bound can be removed => QP is infeasible! */
+			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
+			setInfeasibilityFlag( returnvalue );
+		}
+	}
+
+farewell:
+	delete[] num;
+	delete[] xiB;
+	delete[] xiC;
+
+	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+
+	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
+}
+
+
+
+/*
+ *	r e m o v e C o n s t r a i n t
+ */
+returnValue SQProblemSchur::removeConstraint(	int_t number,
+												BooleanType updateCholesky,
+												BooleanType allowFlipping,
+												BooleanType ensureNZC
+												)
+{
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	int_t sModType = 0;
+	int_t idxDeleted = -1;
+	SubjectToStatus oldStatus;
+	real_t oldDet, newDet;
+
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+	/* some definitions */
+	int_t nAC = getNAC( );
+	int_t number_idx = constraints.getActive( )->getIndex( number );
+
+	int_t addIdx;
+	BooleanType addBoundNotConstraint;
+	SubjectToStatus addStatus;
+	BooleanType exchangeHappened = BT_FALSE;
+
+
+	/* consistency checks */
+	if ( constraints.getStatus( number ) == ST_INACTIVE )
+		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
+
+	if ( ( number_idx < 0 ) || ( number_idx >= nAC ) )
+		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
+
+	/* N) PERFORM ZERO CURVATURE TEST. */
+	if (ensureNZC == BT_TRUE)
+	{
+		returnvalue = ensureNonzeroCurvature(BT_FALSE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
+
+		if (returnvalue != SUCCESSFUL_RETURN)
+			return returnvalue;
+	}
+
+	/* save old constraint status and determinant of old S for flipping strategy */
+	oldStatus = constraints.getStatus( number );
+	oldDet = detS;
+
+	/* I) UPDATE INDICES */
+	tabularOutput.idxRemC = number;
+	if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this constraint had been added before. In that
+	   case delete this constraint from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_ConAdded && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+			found = true;
+			idxDeleted = i;
+			sModType = 2;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Don't check inertia here, may be corrected later! */
+			returnValue retval = resetSchurComplement( BT_FALSE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+			}
+			found = true;
+			sModType = 3;
+		}
+		else
+		{
+			/* If the constraint was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t nACStart = constraintsActiveStart.getLength();
+			int_t* AC_idxStart;
+			constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+			for ( int_t i=0; i<nACStart; i++ )
+				if ( AC_idxStart[i] == number )
+				{
+					real_t one = 1.0;
+					sparse_int_t pos = nFRStart+i;
+					if ( addToSchurComplement( number, SUT_ConRemoved, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+					found = true;
+					break;
+				}
+
+			sModType = 1;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+
+	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
+
+	/* Flipping bounds strategy */
+	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
+	{
+		if ( sModType == 1 )
+		{/* Case 1: We added a row and column to S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet > 0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				nS--;
+
+				/* Flip bounds */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						constraints.moveInactiveToActive( number, ST_UPPER );
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						break;
+					case ST_UPPER:
+						constraints.moveInactiveToActive( number, ST_LOWER );
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (larger) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 2 )
+		{/* Case 2: We deleted a row and column of S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet < 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				undoDeleteFromSchurComplement( idxDeleted );
+
+				/* Flip bounds */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						constraints.moveInactiveToActive( number, ST_UPPER );
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						break;
+					case ST_UPPER:
+						constraints.moveInactiveToActive( number, ST_LOWER );
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (smaller) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 3 )
+		{/* Case 3: S was reset. */
+
+			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
+			int_t neig = sparseSolver->getNegativeEigenvalues( );
+			if( neig > getNAC( ) ) // Wrong inertia!
+			{
+				/* Flip bounds and update Schur complement */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						break;
+					case ST_UPPER:
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+
+			/* Check if flipping deleted the negative eigenvalue */
+			if( correctInertia( ) )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+		}
+		else
+		{/* None of the three cases happened */
+			return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+		}
+	}
+	else
+	{/* No flipping strategy, update QR factorization of S */
+		updateSchurQR( idxDeleted );
+	}
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	if ( exchangeHappened == BT_TRUE )
+	{
+		/* add bound or constraint */
+
+		if ( addBoundNotConstraint )
+		{
+			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddB = 1;
+		}
+		else
+		{
+			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddC = 1;
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	r e m o v e B o u n d
+ */
+returnValue SQProblemSchur::removeBound(	int_t number,
+											BooleanType updateCholesky,
+											BooleanType allowFlipping,
+											BooleanType ensureNZC
+											)
+{
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+	int_t addIdx;
+	BooleanType addBoundNotConstraint;
+	SubjectToStatus addStatus;
+	BooleanType exchangeHappened = BT_FALSE;
+
+	int_t sModType = 0;
+	int_t idxDeleted = -1;
+	SubjectToStatus oldStatus;
+	real_t oldDet, newDet;
+
+	/* consistency checks */
+	if ( bounds.getStatus( number ) == ST_INACTIVE )
+		return THROWERROR( RET_BOUND_NOT_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )           )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+	/* N) PERFORM ZERO CURVATURE TEST. */
+	if (ensureNZC == BT_TRUE)
+	{
+		returnvalue = ensureNonzeroCurvature(BT_TRUE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
+
+		if (returnvalue != SUCCESSFUL_RETURN)
+			return returnvalue;
+	}
+
+	/* save old bound status and determinant of old S for flipping strategy */
+	oldStatus = bounds.getStatus( number );
+	oldDet = detS;
+
+	/* I) UPDATE INDICES */
+	tabularOutput.idxRemB = number;
+	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this variable had been fixed before. In that
+	   case delete this variable from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_VarFixed && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			found = true;
+			idxDeleted = i;
+			sModType = 2;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Don't correct inertia here, may be corrected by flipping bounds! */
+			returnValue retval = resetSchurComplement( BT_FALSE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH  )
+					MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			}
+			found = true;
+			sModType = 3;
+		}
+		else
+		{
+			/* If the variable was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t nACStart = constraintsActiveStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+			int_t* AC_idxStart;
+			constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+			int_t numNonzerosM = 0;
+			sparse_int_t* Mpos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
+			real_t* Mvals = new real_t[nFRStart+nACStart+nS];
+			int_t numNonzerosN = 0;
+			sparse_int_t* Npos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
+			real_t* Nvals = new real_t[nFRStart+nACStart+nS];
+			real_t N_diag;
+
+			int_t* irn = new int_t[nFRStart+nACStart+nS+1];
+			int_t* jcn = new int_t[nFRStart+nACStart+nS+1];
+			real_t* vals = new real_t[nFRStart+nACStart+nS+1];
+			int_t iLength;
+			int_t* iNumber = new int_t[nFRStart+nACStart+nS+1];
+			int_t numNonzeros;
+			int_t* iSIdx = new int_t[nS];
+
+			/* First the Hessian part. */
+			real_t regularisation = options.epsRegularisation;
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					N_diag = regularisation;
+					break;
+
+				case HST_IDENTITY:
+					N_diag = 1.0 + regularisation;
+					break;
+
+				default:
+					N_diag = regularisation;
+					for ( int_t i=0; i<nFRStart; i++ )
+						iNumber[i] = FR_idxStart[i];
+					iLength = nFRStart;
+					for ( int_t i=0; i<nS; i++ )
+						if ( schurUpdate[i] == SUT_VarFreed )
+						{
+							iNumber[iLength] = schurUpdateIndex[i];
+							iSIdx[iLength-nFRStart] = i;
+							iLength++;
+						}
+					iNumber[iLength++] = number;
+
+					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+					for ( int_t i=0; i<numNonzeros; i++ )
+					{
+						if ( irn[i] < nFRStart )
+						{
+							Mpos[numNonzerosM] = irn[i];
+							Mvals[numNonzerosM] = vals[i];
+							numNonzerosM++;
+						}
+						else if ( irn[i] != iLength-1 )
+						{
+							Npos[numNonzerosN] = iSIdx[irn[i] - nFRStart];
+							Nvals[numNonzerosN] = vals[i];
+							numNonzerosN++;
+						}
+						else
+							N_diag += vals[i];
+					}
+					break;
+			}
+
+			if ( constraintProduct != 0 )
+			{
+				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+
+			for ( int_t i=0; i<nACStart; i++ )
+				iNumber[i] = AC_idxStart[i];
+			iLength = nACStart;
+			for ( int_t i=0; i<nS; i++ )
+				if ( schurUpdate[i] == SUT_ConAdded )
+				{
+					iNumber[iLength] = schurUpdateIndex[i];
+					iSIdx[iLength-nACStart] = i;
+					iLength++;
+				}
+
+			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+			for ( int_t i=0; i<numNonzeros; i++ )
+			{
+				if ( irn[i] < nACStart )
+				{
+					Mpos[numNonzerosM] = irn[i] + nFRStart;
+					Mvals[numNonzerosM] = vals[i];
+					numNonzerosM++;
+				}
+				else
+				{
+					Npos[numNonzerosN] = iSIdx[irn[i] - nACStart];
+					Nvals[numNonzerosN] = vals[i];
+					numNonzerosN++;
+				}
+			}
+
+			delete [] iSIdx;
+			delete [] iNumber;
+			delete [] vals;
+			delete [] jcn;
+			delete [] irn;
+
+			returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
+
+			delete [] Mvals;
+			delete [] Mpos;
+			delete [] Nvals;
+			delete [] Npos;
+
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+			found = true;
+			sModType = 1;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
+
+	/* Flipping bounds strategy */
+	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
+	{
+		if ( sModType == 1 )
+		{/* Case 1: We added a row and column to S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet > 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				nS--;
+
+				/* Flip bounds */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						bounds.moveFreeToFixed( number, ST_UPPER );
+						ub[number] = lb[number];
+						break;
+					case ST_UPPER:
+						bounds.moveFreeToFixed( number, ST_LOWER );
+						lb[number] = ub[number];
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (larger) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 2 )
+		{/* Case 2: We deleted a row and column of S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet < 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				undoDeleteFromSchurComplement( idxDeleted );
+
+				/* Flip bounds */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						bounds.moveFreeToFixed( number, ST_UPPER );
+						ub[number] = lb[number];
+						break;
+					case ST_UPPER:
+						bounds.moveFreeToFixed( number, ST_LOWER );
+						lb[number] = ub[number];
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (smaller) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 3 )
+		{/* Case 3: S was reset. */
+
+			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
+			int_t neig = sparseSolver->getNegativeEigenvalues( );
+			if( neig > getNAC( ) ) // Wrong inertia, flip bounds!
+			{
+				/* Flip bounds and update Schur complement */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						ub[number] = lb[number];
+						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						break;
+					case ST_UPPER:
+						lb[number] = ub[number];
+						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+
+			/* Check if flipping deleted the negative eigenvalue */
+			if( correctInertia( ) )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+		}
+		else
+		{/* None of the three cases happened */
+			return THROWERROR( RET_REMOVEBOUND_FAILED );
+		}
+	}
+	else
+	{/* No flipping strategy, update QR factorization of S */
+		updateSchurQR( idxDeleted );
+	}
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	if ( exchangeHappened == BT_TRUE )
+	{
+		/* add bound or constraint */
+
+		if ( addBoundNotConstraint )
+		{
+			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddB = 1;
+		}
+		else
+		{
+			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddC = 1;
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p T Q f a c t o r i s a t i o n
+ */
+returnValue SQProblemSchur::backsolveT( const real_t* const b, BooleanType transposed, real_t* const a ) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	b a c k s o l v e R
+ */
+returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, real_t* const a 	) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	b a c k s o l v e R
+ */
+returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, BooleanType removingBound, real_t* const a ) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	c a l c D e t S c h u r
+ */
+real_t SQProblemSchur::calcDetSchur( int_t idxDel )
+{
+	if ( nS <= 0 )
+		return 1.0;
+
+	real_t newDet;
+	int_t i, j;
+	real_t c, s, nu;
+
+	/* Case 1: S has been bordered by one row and column */
+	if( idxDel < 0 )
+	{
+		/* Do a solve with the old S to check determinant of new (bordered) S */
+		real_t *temp1 = new real_t[nS-1];
+		real_t *temp2 = new real_t[nS-1];
+		for( i=0; i<nS-1; i++ )
+			temp1[i] = S[i + (nS-1)*nSmax];
+		backsolveSchurQR( nS-1, temp1, 1, temp2 );
+
+		newDet = S[(nS-1) + (nS-1)*nSmax];
+		for( i=0; i<nS-1; i++ )
+			newDet -= temp1[i]*temp2[i];
+		newDet *= detS;
+		delete [] temp1;
+		delete [] temp2;
+	}
+	/* Case 2: row and column idxDel have been deleted from S */
+	else
+	{
+		const int_t dim = nS+1;
+		real_t *tempR = new real_t[dim*(dim-1)];
+		real_t *tempColQ = new real_t[dim];
+
+		/* Copy current R without column idxDel*/
+		for( j=0; j<idxDel; j++ )
+			for( i=0; i<dim; i++ )
+				tempR[i+j*dim] = R_[i+j*nSmax];
+		for( j=idxDel; j<dim-1; j++ )
+			for( i=0; i<dim; i++ )
+				tempR[i+j*dim] = R_[i+(j+1)*nSmax];
+		/* Copy row idxDel of Q */
+		for( j=0; j<dim; j++ )
+			tempColQ[j] = Q_[idxDel+j*nSmax];
+
+		/* Bring tempR to triangular form with nS-idxDel Givens rotations */
+		for ( i=idxDel; i<nS; i++ )
+		{
+			computeGivens( tempR[i+i*dim], tempR[(i+1)+i*dim], tempR[i+i*dim], tempR[(i+1)+i*dim], c, s );
+			nu = s/(1.0+c);
+			/// \todo I think we do not need to transform all columns of R, i+3 or so should be sufficient
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, tempR[i+j*dim], tempR[(i+1)+j*dim], tempR[i+j*dim], tempR[(i+1)+j*dim] );
+
+			/* Simultaneously transform relevant column of Q**T */
+			applyGivens( c, s, nu, tempColQ[i], tempColQ[i+1], tempColQ[i], tempColQ[i+1] );
+		}
+
+		/* Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
+		for ( i=nS; i>0; i-- )
+		{
+			computeGivens( tempColQ[nS], tempColQ[i-1], tempColQ[nS], tempColQ[i-1], c, s );
+			nu = s/(1.0+c);
+
+			/* Simultaneously transform diagonal elements of R (coldim is already one less than Q) */
+			applyGivens( c, s, nu, tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim], tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim] );
+		}
+
+		/* Note that we implicitly did a row permutation of Q.
+		 * If we did an  odd permutation AND deleted a positive unity vector or
+		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
+		 * ->Change signs of first column of Q and first row of R */
+		if ( (( (nS - idxDel) % 2 == 1 ) && ( tempColQ[nS] > 0.0 )) ||
+			(( (nS - idxDel) % 2 == 0 ) && ( tempColQ[nS] < 0.0 )) )
+		{
+			tempR[0] = -tempR[0];
+		}
+
+		newDet = 1.0;
+		//for( i=0; i<nS; i++ )
+			//newDet *= tempR[i+i*dim];
+		for( i=0; i<nS; i++ )
+			if( tempR[i+i*dim] < 0.0 ) newDet = -newDet;
+		delete [] tempR;
+		delete [] tempColQ;
+	}
+
+	return newDet;
+}
+
+
+/*
+ *	u p d a t e S c h u r Q R
+ */
+returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
+{
+	int_t i, j;
+	real_t c, s, nu;
+
+	if ( nS <= 0 )
+	{
+		detS = 1.0;
+		rcondS = 1.0;
+		return SUCCESSFUL_RETURN;
+	}
+
+	/* Case 1: S has been bordered by one row and column */
+	if ( idxDel < 0 )
+	{
+		/* I: Augment Q**T by nS-th unity vector (row and column) */
+		for ( i=0; i<nS; i++ )
+		{
+			Q_[i+(nS-1)*nSmax] = 0.0;
+			Q_[(nS-1)+i*nSmax] = 0.0;
+		}
+		Q_[(nS-1)+(nS-1)*nSmax] = 1.0;
+
+		/* IIa: Augment rows of R by last row of S */
+		for ( i=0; i<nS; i++ )
+			R_[(nS-1)+i*nSmax] = S[(nS-1)+i*nSmax];
+
+		/* IIb: Augment columns of R by Q**T * S[nS,:] */
+		for ( i=0; i<nS; i++ )
+		{
+			R_[i+(nS-1)*nSmax] = 0.0;
+			for ( j=0; j<nS; j++ )
+				R_[i+(nS-1)*nSmax] += Q_[j+i*nSmax] * S[j+(nS-1)*nSmax];
+		}
+
+		/* III: Restore triangular form of R by nS-1 Givens rotations */
+		for ( i=0; i<nS-1; i++ )
+		{
+			computeGivens( R_[i+i*nSmax], R_[(nS-1)+i*nSmax], R_[i+i*nSmax], R_[(nS-1)+i*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(nS-1)+j*nSmax], R_[i+j*nSmax], R_[(nS-1)+j*nSmax] );
+
+			/* Simultaneously transform Q**T */
+			for ( j=0; j<nS; j++ )
+				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax], Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax] );
+		}
+	}
+	/* Case 2: row and column idxDel have been deleted from S */
+	else
+	{
+		/* I: Delete column idxDel of R */
+		for ( j=idxDel; j<nS; j++ )
+			for ( i=0; i<nS+1; i++ )
+				R_[i+j*nSmax] = R_[i+(j+1)*nSmax];
+
+		/* II: Bring R back to triangular form with nS-idxDel Givens rotations */
+		for ( i=idxDel; i<nS; i++ )
+		{
+			computeGivens( R_[i+i*nSmax], R_[(i+1)+i*nSmax], R_[i+i*nSmax], R_[(i+1)+i*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(i+1)+j*nSmax], R_[i+j*nSmax], R_[(i+1)+j*nSmax] );
+
+			/* Simultaneously transform (old) Q**T (coldim is one larger)*/
+			for ( j=0; j<nS+1; j++ )
+				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(i+1)*nSmax], Q_[j+i*nSmax], Q_[j+(i+1)*nSmax] );
+		}
+
+		/* III: Permute rows of Q: move row idxDel to position nS */
+		real_t temp;
+		for ( j=0; j<nS+1; j++ )
+		{
+			temp = Q_[idxDel+j*nSmax];
+			for ( i=idxDel; i<nS; i++ )
+				Q_[i+j*nSmax] = Q_[(i+1)+j*nSmax];
+			Q_[nS+j*nSmax] = temp;
+		}
+
+		/* IV: Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
+		for ( i=nS; i>0; i-- )
+		{
+			computeGivens( Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=0; j<nS; j++ )
+				applyGivens( c, s, nu, Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax], Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax] );
+
+			/* Simultaneously transform R (coldim is already one less than Q) */
+			for ( j=i-1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[nS+j*nSmax], R_[(i-1)+j*nSmax], R_[nS+j*nSmax], R_[(i-1)+j*nSmax] );
+		}
+
+		/* If we did an  odd permutation AND deleted a positive unity vector or
+		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
+		 * ->Change signs of first column of Q and first row of R s.t. we always maintain det(Q)=1 */
+		if ( (( (nS - idxDel) % 2 == 1 ) && ( Q_[nS+nS*nSmax] > 0.0 )) ||
+			(( (nS - idxDel) % 2 == 0 ) && ( Q_[nS+nS*nSmax] < 0.0 )) )
+		{
+			for ( i=0; i<nS+1; i++ )
+				Q_[i] = -Q_[i];
+			for ( i=0; i<nS; i++ )
+				R_[i*nSmax] = -R_[i*nSmax];
+		}
+	}
+
+	/* Compute determinant */
+	detS = 1.0;
+	//for ( i=0; i<nS; i++ )
+		//detS *= R_[i+i*nSmax];
+	for ( i=0; i<nS; i++ )
+		if( R_[i+i*nSmax] < 0.0 ) detS = -detS;
+
+	/* Estimate condition number of R (= condition number of S)*/
+	real_t *WORK;
+	unsigned long N = (unsigned long)nS;
+	unsigned long LDA = (unsigned long)nSmax;
+	unsigned long *IWORK;
+	long INFO = 0;
+	IWORK = new unsigned long[N];
+	WORK = new real_t[3*N];
+	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
+	if ( INFO != 0 )
+	{
+		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
+	}
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "1/cond(S) = %23.16e.\n", rcondS );
+
+	delete[] IWORK;
+	delete[] WORK;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	b a c k s o l v e S c h u r Q R
+ */
+returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rhs, int_t dimRhs, real_t* const sol )
+{
+	if( dimS < 1 || dimRhs < 1 )
+		return SUCCESSFUL_RETURN;
+
+	if( dimRhs > 1 )
+	{
+		MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
+		return RET_QR_FACTORISATION_FAILED;
+	}
+
+	int_t i, j;
+	long INFO = 0;
+	unsigned long NRHS = 1;
+	unsigned long M = (unsigned long)dimS;
+	unsigned long LDA = (unsigned long)nSmax;
+	unsigned long LDC = (unsigned long)dimS;
+
+	for( i=0; i<dimS; i++ )
+		sol[i] = 0.0;
+
+	/* Compute sol = Q**T * rhs */
+	for( i=0; i<dimS; i++ )
+		for( j=0; j<dimS; j++ )
+			sol[i] += Q_[j+i*nSmax] * rhs[j];
+
+	/* Solve Rx = sol */
+	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
+	if ( INFO != 0 )
+	{
+		MyPrintf("TRTRS returns INFO = %d\n", INFO);
+		if ( INFO == ((long)0xDEADBEEF) )
+			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
+		return RET_QR_FACTORISATION_FAILED;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, real_t& rhs_max, 
+											const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+											const real_t* const delta_lb, const real_t* const delta_ub,
+											BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+											real_t* const delta_xFX, real_t* const delta_xFR,
+											real_t* const delta_yAC, real_t* const delta_yFX
+											)
+{
+	int_t i, ii;
+	returnValue retval;
+
+	if ( nS < 0 )
+	{
+		retval = resetSchurComplement( BT_FALSE );
+		if (retval != SUCCESSFUL_RETURN)
+		{
+			MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
+			return THROWERROR( retval );
+		}
+	}
+
+	/* tempA and tempB hold the residuals in gFR and bA (= lbA or ubA)
+	 * delta_xFR, delta_yAC hold the steps that get refined */
+	for ( i=0; i<nFR; ++i )
+	{
+		ii = FR_idx[i];
+		tempA[i] = delta_g[ii];
+		delta_xFR[i] = 0.0;
+	}
+	for ( i=0; i<nAC; ++i )
+		delta_yAC[i] = 0.0;
+	if ( Delta_bC_isZero == BT_FALSE )
+	{
+		for ( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			if ( constraints.getStatus( ii ) == ST_LOWER )
+				tempB[i] = delta_lbA[ii];
+			else
+				tempB[i] = delta_ubA[ii];
+		}
+	}
+	else
+	{
+		for ( i=0; i<nAC; ++i )
+			tempB[i] = 0.0;
+	}
+	if ( ( hessianType != HST_IDENTITY ) && ( hessianType != HST_ZERO ) )
+	{
+		/* tempA becomes RHS for reduced augmented system, gFR+H_FX*delta_xFR */
+		H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
+	}
+	/* tempB becomes RHS for reduced augmented system, bA-A_CX*delta_xFR */
+	A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
+
+	/* If iterative refinement is requested, compute max-norm of RHS for termination test. */
+	rhs_max = 0.0;
+	if ( options.numRefinementSteps > 0 )
+	{
+		for ( i=0; i<nFR; i++ )
+			rhs_max = getMax(rhs_max, getAbs(tempA[i]));
+		for ( i=0; i<nAC; i++ )
+			rhs_max = getMax(rhs_max, getAbs(tempB[i]));
+	}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcReorder(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* rhs)
+{
+	int_t i, ii;
+	/* Reorder information for the new to the old free variables. */
+	i = 0;
+	ii = 0;
+	while ( ii < nFRStart )
+	{
+		if ( i == nFR )
+			rhs[FR_iSortStart[ii++]] = 0.0;
+		else
+		{
+			int_t idx = FR_idx[FR_iSort[i]];
+			int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
+
+			if ( idx == idxStart )
+				rhs[FR_iSortStart[ii++]] = -tempA[FR_iSort[i++]];
+			else if ( idx < idxStart )
+				i++;
+			else
+				rhs[FR_iSortStart[ii++]] = 0.0;
+		}
+	}
+	/* Reorder information for the new to the old active constraints. */
+	i = 0;
+	ii = 0;
+	while ( ii < nACStart )
+	{
+		if ( i == nAC )
+			rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
+		else
+		{
+			int_t idx = AC_idx[AC_iSort[i]];
+			int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
+
+			if ( idx == idxStart )
+				rhs[nFRStart+AC_iSortStart[ii++]] = tempB[AC_iSort[i++]];
+			else if ( idx < idxStart )
+				i++;
+			else
+				rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
+		}
+	}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, int_t dim, real_t* rhs, real_t* sol )
+{
+	returnValue retval;
+	int_t i, ii;
+
+	real_t* q = new real_t[nS];
+
+	/* Compute extra compoments of the RHS */
+	for ( ii=0; ii<nS; ii++ )
+	{
+		int_t idx = schurUpdateIndex[ii];
+		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
+		{
+			case SUT_VarFixed:
+				q[ii] = 0.0;
+				break;
+
+			case SUT_VarFreed:
+				/* Find index of freed variable */
+				for( i=0; i<nFR; ++i )
+					if ( FR_idx[i] == idx )
+					{
+						q[ii] = -tempA[i];
+						break;
+					}
+				break;
+
+			case SUT_ConAdded:
+				/* Find index of added constraint */
+				for( i=0; i<nAC; ++i )
+					if ( AC_idx[i] == idx )
+					{
+						q[ii] = tempB[i];
+						break;
+					}
+				break;
+
+			case SUT_ConRemoved:
+				q[ii] = 0.0;
+				break;
+
+			default:
+				return THROWERROR( RET_UNKNOWN_BUG );
+		}
+	}
+
+	/* compute q = M^T K^{-1} r - q */
+	computeMTransTimes(1.0, sol, -1.0, q);
+
+	/* Solve linear system with Schur complement. */
+	real_t* p = new real_t[nS];
+	backsolveSchurQR( nS, q, 1, p );
+
+	computeMTimes(-1.0, p, 1.0, rhs);
+
+	retval = sparseSolver->solve(dim, rhs, sol);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+	}
+
+	/* Transfer extra compoments of the Schur complement solution to the correct place. */
+	for ( ii=0; ii<nS; ii++ )
+	{
+		int_t idx = schurUpdateIndex[ii];
+		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
+		{
+			case SUT_VarFixed:
+				break;
+
+			case SUT_VarFreed:
+				/* Find index of freed variable */
+				for( i=0; i<nFR; ++i )
+					if ( FR_idx[i] == idx )
+					{
+						delta_xFR_TMP[i] = p[ii];
+						break;
+					}
+				break;
+
+			case SUT_ConAdded:
+				/* Find index of added constraint */
+				for( i=0; i<nAC; ++i )
+					if ( AC_idx[i] == idx )
+					{
+						delta_yAC_TMP[i] = -p[ii];
+						break;
+					}
+				break;
+
+			case SUT_ConRemoved:
+				break;
+
+			default:
+				return THROWERROR( RET_UNKNOWN_BUG );
+		}
+	}
+
+	delete [] p;
+	delete [] q;
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcReorder2(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* sol, real_t* const delta_xFR, real_t* const delta_yAC)
+{
+	int_t i, ii;
+			i = 0;
+			ii = 0;
+			while ( ii < nFRStart && i < nFR )
+			{
+				int_t idx = FR_idx[FR_iSort[i]];
+				int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
+
+				if ( idx == idxStart )
+					delta_xFR_TMP[FR_iSort[i++]] = sol[FR_iSortStart[ii++]];
+				else if ( idx < idxStart )
+					i++;
+				else
+					ii++;
+			}
+			/* Transfer Schur complement solution for the active constraint multipliers to the correct places */
+			i = 0;
+			ii = 0;
+			while ( ii < nACStart && i < nAC )
+			{
+				int_t idx = AC_idx[AC_iSort[i]];
+				int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
+
+				if ( idx == idxStart )
+					delta_yAC_TMP[AC_iSort[i++]] = -sol[nFRStart+AC_iSortStart[ii++]];
+				else if ( idx < idxStart )
+					i++;
+				else
+					ii++;
+			}
+
+			/* refine the solution found so far */
+			for ( i=0; i<nFR; ++i )
+				delta_xFR[i] += delta_xFR_TMP[i];
+			for ( i=0; i<nAC; ++i )
+				delta_yAC[i] += delta_yAC_TMP[i];
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcResid(int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, BooleanType Delta_bC_isZero, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA, real_t& rnrm)
+{
+	int_t i, ii;
+				/* compute residuals in tempA and tempB, and max-norm */
+				for ( i=0; i<nFR; ++i )
+				{
+					ii = FR_idx[i];
+					tempA[i] = delta_g[ii];
+				}
+
+				switch ( hessianType )
+				{
+					case HST_ZERO:
+						break;
+
+					case HST_IDENTITY:
+						for ( i=0; i<nFR; ++i )
+							tempA[i] += delta_xFR[i];
+						break;
+
+					default:
+						H->times(bounds.getFree(), bounds.getFree(),  1, 1.0, delta_xFR, nFR, 1.0, tempA, nFR);
+						H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
+						break;
+				}
+
+				for ( i=0; i<nFR; ++i )
+					tempA[i] += options.epsRegularisation*delta_xFR[i];
+
+				A->transTimes(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_yAC, nAC, 1.0, tempA, nFR);
+				rnrm = 0.0;
+				for ( i=0; i<nFR; ++i )
+					if (rnrm < getAbs (tempA[i]))
+						rnrm = getAbs (tempA[i]);
+
+				if (!Delta_bC_isZero)
+				{
+					for ( i=0; i<nAC; ++i )
+					{
+						ii = AC_idx[i];
+						if ( constraints.getStatus( ii ) == ST_LOWER )
+							tempB[i] = delta_lbA[ii];
+						else
+							tempB[i] = delta_ubA[ii];
+					}
+				}
+				else
+				{
+					for ( i=0; i<nAC; ++i )
+						tempB[i] = 0.0;
+				}
+
+				A->times(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_xFR, nFR, 1.0, tempB, nAC);
+
+				A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
+				for ( i=0; i<nAC; ++i )
+					if (rnrm < getAbs (tempB[i]))
+						rnrm = getAbs (tempB[i]);
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcDeltayFx(int_t nFR, int_t nFX, int_t nAC, int_t* FX_idx, const real_t* const delta_g, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, real_t* const delta_yFX)
+{
+	int_t i;
+		for( i=0; i<nFX; ++i )
+			delta_yFX[i] = delta_g[FX_idx[i]];
+
+		A->transTimes(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_yAC, nAC, 1.0, delta_yFX, nFX);
+
+		if ( hessianType == HST_ZERO )
+		{
+		  // TODO: if ( usingRegularisation( ) == BT_TRUE )
+				for( i=0; i<nFX; ++i )
+					delta_yFX[i] += options.epsRegularisation*delta_xFX[i];
+		}
+		else if ( hessianType == HST_IDENTITY )
+		{
+			for( i=0; i<nFX; ++i )
+				delta_yFX[i] += delta_xFX[i];
+		}
+		else
+		{
+			H->times(bounds.getFixed(), bounds.getFree(), 1, 1.0, delta_xFR, nFR, 1.0, delta_yFX, nFX);
+			H->times(bounds.getFixed(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, delta_yFX, nFX);
+		}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+												const real_t* const delta_lb, const real_t* const delta_ub,
+												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+												real_t* const delta_xFX, real_t* const delta_xFR,
+												real_t* const delta_yAC, real_t* const delta_yFX
+												)
+{
+	returnValue retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
+													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+													delta_yAC, delta_yFX
+													);
+
+	if ( retval == RET_QR_FACTORISATION_FAILED )
+	{
+		retval = resetSchurComplement( BT_FALSE );
+		if (retval != SUCCESSFUL_RETURN)
+		{
+			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
+			return THROWERROR( retval );
+		}
+		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
+													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+													delta_yAC, delta_yFX
+													);
+	}
+	return retval;
+}
+
+/*
+ *	d e t e r m i n e S t e p D i r e c t i o n
+ */
+returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+												const real_t* const delta_lb, const real_t* const delta_ub,
+												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+												real_t* const delta_xFX, real_t* const delta_xFR,
+												real_t* const delta_yAC, real_t* const delta_yFX
+												)
+{
+	/* The linear system to be solved here is this:
+
+	   / H_FF  H_FX  A_CF^T  0 \ /  delta_xFR \   / -delta_g_F \
+	   | H_XF  H_XX  A_CX^T  I | |  delta_xFX |   | -delta_g_X |
+	   | A_CF  A_CX    0     0 | | -delta_yAC | = |  delta_bA  |  <-- active entries of delta_lbA and delta_ubA with corresponding sign
+	   \  0     I      0     0 / \ -delta_yFX /   \  delta_bX  /  <-- fixed entries of delta_lb and delta_ub with corresponding sign
+
+	*/
+
+
+	int_t i, ii, r;
+
+	returnValue retval;
+
+  //int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nFX = getNFX( );
+	int_t nAC = getNAC( );
+
+	int_t* FR_idx;
+	int_t* FX_idx;
+	int_t* AC_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+
+	/* I) DETERMINE delta_xFX (this is exact, does not need refinement) */
+	if ( Delta_bB_isZero == BT_FALSE )
+	{
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+
+			if ( bounds.getStatus( ii ) == ST_LOWER )
+				delta_xFX[i] = delta_lb[ii];
+			else
+				delta_xFX[i] = delta_ub[ii];
+		}
+	}
+	else
+	{
+		for( i=0; i<nFX; ++i )
+			delta_xFX[i] = 0.0;
+	}
+
+	if ( nFR+nAC>0 ) {
+		real_t rhs_max = 0.0;
+		retval = stepCalcRhs( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, rhs_max, delta_g, delta_lbA, delta_ubA,
+							  delta_lb, delta_ub, Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+							  delta_yAC, delta_yFX );
+
+		if (retval != SUCCESSFUL_RETURN)
+			return retval;
+		int_t nFRStart = boundsFreeStart.getLength();
+		int_t nACStart = constraintsActiveStart.getLength();
+
+		int_t* FR_iSort;
+		int_t* AC_iSort;
+		bounds.getFree( )->getISortArray( &FR_iSort );
+		constraints.getActive( )->getISortArray( &AC_iSort );
+
+		int_t* FR_idxStart;
+		int_t* AC_idxStart;
+		boundsFreeStart.getNumberArray( &FR_idxStart );
+		constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+		int_t* FR_iSortStart;
+		int_t* AC_iSortStart;
+		boundsFreeStart.getISortArray( &FR_iSortStart );
+		constraintsActiveStart.getISortArray( &AC_iSortStart );
+
+		int_t dim = nFRStart + nACStart;
+		real_t* rhs = new real_t[dim];
+		real_t* sol = new real_t[dim];
+
+		/* Iterative refinement loop for delta_xFR, delta_yAC */
+		for ( r=0; r<=options.numRefinementSteps; ++r )
+		{
+		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
+			if (retval != SUCCESSFUL_RETURN)
+				return retval;
+
+			retval = sparseSolver->solve(dim, rhs, sol);
+
+			if (retval != SUCCESSFUL_RETURN)
+			{
+				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+			}
+
+			if ( nS > 0 )
+			{
+				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
+				if (retval != SUCCESSFUL_RETURN)
+					return retval;
+			}
+
+			/* Transfer Schur complement solution for the free variables to the correct places */
+			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
+			if (retval != SUCCESSFUL_RETURN)
+				return retval;
+
+			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
+			{
+				real_t rnrm;
+				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
+				if (retval != SUCCESSFUL_RETURN)
+					return retval;
+
+				/* early termination of residual norm small enough */
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In iterative refinement (iter %d) rnrm = %e and epsIterRef*rhs_max = %e.\n", r, rnrm, options.epsIterRef*rhs_max);
+
+				if ( rnrm <= options.epsIterRef*rhs_max )
+					break;
+			}
+
+		}
+
+		delete [] sol;
+		delete [] rhs;
+	}
+
+	/* IV) DETERMINE delta_yFX */
+	if ( nFX > 0 )
+	{
+		retval = stepCalcDeltayFx(nFR, nFX, nAC, FX_idx, delta_g, delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		if (retval != SUCCESSFUL_RETURN)
+			return retval;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrection )
+{
+	int_t j;
+	int_t nFR = getNFR( );
+	int_t nAC = getNAC( );
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "Resetting Schur complement.\n");
+
+	nS = 0;
+	detS = 1.0;
+	rcondS = 1.0;
+	boundsFreeStart = *bounds.getFree();
+	constraintsActiveStart = *constraints.getActive();
+
+	if ( nSmax > 0 )
+		M_jc[0] = 0;
+
+	int_t dim = nFR+nAC;
+	// Count the number of nonzeros
+	int_t numNonzeros;
+	switch ( hessianType )
+	{
+		case HST_ZERO:
+			numNonzeros = 0;
+			break;
+
+		case HST_IDENTITY:
+			numNonzeros = nFR;
+			break;
+
+		default:
+			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			break;
+	}
+	// TODO: For now, we regularize every time
+	if (options.epsRegularisation > 0.0)
+		numNonzeros += nFR;
+
+	int_t numNonzerosA;
+
+	if ( constraintProduct != 0 )
+	{
+		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+	}
+	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	numNonzeros += numNonzerosA;
+
+	// Get the values
+	real_t* avals = new real_t[numNonzeros];
+	int_t* irn = new int_t[numNonzeros];
+	int_t* jcn = new int_t[numNonzeros];
+	numNonzeros = 0;
+	switch ( hessianType )
+	{
+		case HST_ZERO:
+			break;
+
+		case HST_IDENTITY:
+			numNonzeros += nFR;
+			for (j = 0; j<nFR; j++)
+			{
+				irn[j] = j+1;
+				jcn[j] = j+1;
+				avals[j] = 1.0;
+			}
+			break;
+
+		default:
+			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
+			break;
+	}
+
+	// For now, we regularize every time
+	if (options.epsRegularisation > 0.0)
+	{
+		for (j = 0; j<nFR; j++)
+		{
+			irn[numNonzeros] = j+1;
+			jcn[numNonzeros] = j+1;
+			avals[numNonzeros++] = options.epsRegularisation;
+		}
+	}
+
+	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
+	numNonzeros += numNonzerosA;
+
+	// Call the linear solver
+	sparseSolver->reset();
+	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
+	delete [] jcn;
+	delete [] irn;
+	delete [] avals;
+	
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR(RET_NO_SPARSE_SOLVER);
+
+	// Factorize the matrix for later backsolves
+	retval = sparseSolver->factorize();
+	numFactorizations++;
+
+	// If matrix is singular, add bounds/remove constraints according to zero pivots
+	if (retval == RET_KKT_MATRIX_SINGULAR)
+	{
+		if( repairSingularWorkingSet( ) == SUCCESSFUL_RETURN )
+			return resetSchurComplement( allowInertiaCorrection );
+		else
+			return RET_KKT_MATRIX_SINGULAR;
+	}
+
+	// If matrix has wrong inertia, add bounds until inertia is correct
+	if (retval == SUCCESSFUL_RETURN && allowInertiaCorrection)
+	{
+		int_t neig = sparseSolver->getNegativeEigenvalues( );
+		if( neig > getNAC( ) )
+		{
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: After new factorization, reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+			retval = correctInertia();
+		}
+	}
+
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
+
+	nS = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::computeMTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
+{
+	if ( isEqual( alpha, -1.0 ) == BT_FALSE || isEqual( beta, 1.0 ) == BT_FALSE )
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+
+	int_t i, j;
+
+	for ( j=0; j<nS; j++ )
+	{
+		const real_t xval = x_[j];
+		for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+			y_[M_ir[i]] -= M_vals[i]*xval;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::computeMTransTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
+{
+	if ( isEqual( alpha, 1.0 ) == BT_FALSE || ( isZero( beta ) == BT_FALSE && isEqual( beta, -1.0 ) == BT_FALSE ) )
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+
+	int_t i, j;
+
+	if ( isZero( beta ) == BT_TRUE )
+	{
+		for ( j=0; j<nS; j++ )
+		{
+			y_[j] = 0.0;
+			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+				y_[j] += M_vals[i]*x_[M_ir[i]];
+		}
+	}
+	else
+	{
+		for ( j=0; j<nS; j++ )
+		{
+			y_[j] = -y_[j];
+			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+				y_[j] += M_vals[i]*x_[M_ir[i]];
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType update, int_t numNonzerosM, const sparse_int_t* Mpos, const real_t* const Mvals, int_t numNonzerosN, const sparse_int_t* Npos, const real_t* const Nvals, real_t N_diag )
+{
+	int_t i;
+
+	int_t nFRStart = boundsFreeStart.getLength();
+	int_t nACStart = constraintsActiveStart.getLength();
+
+	real_t* new_Scol = new real_t[nS];
+
+	int_t dim = nFRStart + nACStart;
+	real_t* rhs = new real_t[dim];
+	real_t* sol = new real_t[dim];
+
+	for ( i=0; i<dim; i++ )
+		rhs[i] = 0.0;
+
+	for ( i=0; i<numNonzerosM; i++ )
+		rhs[Mpos[i]] = Mvals[i];
+
+	returnValue retval = sparseSolver->solve(dim, rhs, sol);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+	}
+
+	computeMTransTimes(1.0, sol, 0.0, new_Scol);
+
+	/* Take care of off-diagonal elements in N. */
+	for ( i=0; i<numNonzerosN; i++ )
+		new_Scol[Npos[i]] -= Nvals[i];
+
+	real_t sdiag = -N_diag;
+	for ( i=0; i<numNonzerosM; i++ )
+		sdiag += Mvals[i] * sol[Mpos[i]];
+
+	/* Now augment S */
+	for ( i=0; i<nS; i++)
+		S[nS*nSmax + i] = new_Scol[i];
+	for ( i=0; i<nS; i++)
+		S[i*nSmax + nS] = new_Scol[i];
+	S[nS*nSmax + nS] = sdiag;
+
+	schurUpdateIndex[nS] = number;
+	schurUpdate[nS] = update;
+
+	/* Augment M matrix.  */
+	if ( M_physicallength < M_jc[nS] + numNonzerosM )
+	{
+		/* If necessary, allocate more memory for M. */
+		int_t M_physicallength_new = getMax(2*M_physicallength, M_physicallength + 2*numNonzerosM);
+		real_t* M_vals_new = new real_t[M_physicallength_new];
+		sparse_int_t* M_ir_new = new sparse_int_t[M_physicallength_new];
+		memcpy( M_vals_new, M_vals, ((unsigned int)(M_jc[nS]))*sizeof(real_t) );
+		memcpy( M_ir_new, M_ir, ((unsigned int)(M_jc[nS]))*sizeof(sparse_int_t) );
+		M_physicallength = M_physicallength_new;
+		delete [] M_vals;
+		delete [] M_ir;
+		M_vals = M_vals_new;
+		M_ir = M_ir_new;
+	}
+
+	for ( i=0; i<numNonzerosM; i++ )
+	{
+		M_vals[M_jc[nS] + i] = Mvals[i];
+		M_ir[M_jc[nS] + i] = Mpos[i];
+	}
+	M_jc[nS+1] = M_jc[nS] + numNonzerosM;
+
+	nS++;
+
+	delete [] sol;
+	delete [] rhs;
+	delete [] new_Scol;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "added index %d with update type %d to Schur complement.  nS = %d\n", number, update, nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType allowUndo )
+{
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "deleting entry %d with idx = %d and type %d from Schur complement.", idx, schurUpdateIndex[idx], schurUpdate[idx]);
+
+	if ( idx != nS-1 )
+	{
+		real_t *temp_vals = NULL;
+		int_t *temp_ir = NULL;
+		int_t schurUpdateIndexTemp = -1;
+		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
+
+		/* temporarily save the column of S to be deleted */
+		if( allowUndo == BT_TRUE )
+		{
+			temp_vals = new real_t[nS];
+			for ( int_t i=0; i<nS; i++ )
+				temp_vals[i] = S[idx*nSmax + i];
+
+			schurUpdateIndexTemp = schurUpdateIndex[idx];
+			schurUpdateTemp = schurUpdate[idx];
+		}
+
+		/* Shift rows and columns >idx of S by one to the upper left */
+		for ( int_t i=0; i<idx; i++ )
+			for ( int_t j=idx+1; j<nS; j++ )
+				S[i*nSmax + j-1] = S[i*nSmax + j];
+		for ( int_t i=idx+1; i<nS; i++ )
+		{
+			for ( int_t j=0; j<idx; j++ )
+				S[(i-1)*nSmax + j] = S[i*nSmax + j];
+			for ( int_t j=idx+1; j<nS; j++ )
+				S[(i-1)*nSmax + j-1] = S[i*nSmax + j];
+		}
+		for ( int_t i=idx+1; i<nS; i++ )
+		{
+			schurUpdateIndex[i-1] = schurUpdateIndex[i];
+			schurUpdate[i-1] = schurUpdate[i];
+		}
+
+		/* Store deleted row/column in the last row/column of S, can retrieve it from there later */
+		if( allowUndo == BT_TRUE )
+		{
+			for ( int_t i=0; i<nS; i++ )
+			{
+				S[(nS-1)*nSmax + i] = temp_vals[i];
+				S[i*nSmax + (nS-1)] = temp_vals[i];
+			}
+			schurUpdateIndex[nS-1] = schurUpdateIndexTemp;
+			schurUpdate[nS-1] = schurUpdateTemp;
+			delete[] temp_vals;
+		}
+
+		/* temporarily save the (sparse) column of M to be deleted */
+		int_t numEntries = M_jc[idx+1] - M_jc[idx];
+		if( allowUndo == BT_TRUE )
+		{
+			temp_ir = new int_t[numEntries];
+			temp_vals = new real_t[numEntries];
+
+			for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
+			{
+				temp_ir[i-M_jc[idx]] = M_ir[i];
+				temp_vals[i-M_jc[idx]] = M_vals[i];
+			}
+		}
+
+		/* Shift all columns >idx one to the left */
+		for ( int_t i=M_jc[idx+1]; i<M_jc[nS]; i++ )
+		{
+			M_ir[i-numEntries] = M_ir[i];
+			M_vals[i-numEntries] = M_vals[i];
+		}
+		for ( int_t i=idx; i<nS; i++ )
+			M_jc[i] = M_jc[i+1] - numEntries;
+
+		/* Store deleted column of M in the last column, can retrieve it from there later */
+		if( allowUndo == BT_TRUE )
+		{
+			for ( int_t i=M_jc[nS-1]; i<M_jc[nS]; i++ )
+			{
+				M_ir[i] = temp_ir[i-M_jc[nS-1]];
+				M_vals[i] = temp_vals[i-M_jc[nS-1]];
+			}
+
+			delete[] temp_ir;
+			delete[] temp_vals;
+		}
+	}
+
+	nS--;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "  nS = %d\n", nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
+{
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
+
+	if ( idx != nS )
+	{
+		real_t *temp_vals;
+		int_t *temp_ir;
+		int_t schurUpdateIndexTemp = -1;
+		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
+
+		/* temporarily save the last column of S */
+		temp_vals = new real_t[nS+1];
+		for ( int_t i=0; i<nS+1; i++ )
+			temp_vals[i] = S[i+nS*nSmax];
+
+		schurUpdateIndexTemp = schurUpdateIndex[nS];
+		schurUpdateTemp = schurUpdate[nS];
+
+		/* Shift rows and columns =>idx of S by one to the lower right */
+		for ( int_t i=idx-1; i>-1; i-- )
+			for ( int_t j=nS-1; j>idx-1; j-- )
+				S[(j+1)+i*nSmax] = S[j+i*nSmax];
+		for ( int_t i=nS-1; i>idx-1; i-- )
+		{
+			for ( int_t j=idx-1; j>-1; j-- )
+				S[j+(i+1)*nSmax] = S[j+i*nSmax];
+			for ( int_t j=nS-1; j>idx-1; j-- )
+				S[(j+1)+(i+1)*nSmax] = S[j+i*nSmax];
+		}
+		for ( int_t i=nS-1; i>idx-1; i-- )
+		{
+			schurUpdateIndex[i+1] = schurUpdateIndex[i];
+			schurUpdate[i+1] = schurUpdate[i];
+		}
+
+		/* Insert stored row/column of S at position idx */
+		for ( int_t i=0; i<nS+1; i++ )
+		{
+			S[idx*nSmax + i] = temp_vals[i];
+			S[i*nSmax + idx] = temp_vals[i];
+		}
+		schurUpdateIndex[idx] = schurUpdateIndexTemp;
+		schurUpdate[idx] = schurUpdateTemp;
+		delete[] temp_vals;
+
+		/* temporarily save the last (sparse) column of M */
+		int_t numEntries = M_jc[nS+1] - M_jc[nS];
+		temp_ir = new int_t[numEntries];
+		temp_vals = new real_t[numEntries];
+		for ( int_t i=M_jc[nS]; i<M_jc[nS+1]; i++ )
+		{
+			temp_ir[i-M_jc[nS]] = M_ir[i];
+			temp_vals[i-M_jc[nS]] = M_vals[i];
+		}
+
+		/* Shift all columns =>idx one to the right */
+		for ( int_t i=M_jc[nS]-1; i>M_jc[idx]-1; i-- )
+		{
+			M_ir[i+numEntries] = M_ir[i];
+			M_vals[i+numEntries] = M_vals[i];
+		}
+		for ( int_t i=nS; i>idx-1; i-- )
+			M_jc[i+1] = M_jc[i] + numEntries;
+
+		/* Insert stored column of M at position idx */
+		for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
+		{
+			M_ir[i] = temp_ir[i-M_jc[idx]];
+			M_vals[i] = temp_vals[i-M_jc[idx]];
+		}
+
+		delete[] temp_ir;
+		delete[] temp_vals;
+	}
+
+	nS++;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "  nS = %d\n", nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::correctInertia( )
+{
+	SubjectToStatus B_status;
+	real_t oldDetS;
+	int_t nFR = getNFR( );
+	int_t k, number, neig, nAdded;
+	int_t *freeBoundIdx = new int_t[nFR];
+	int_t *numberarray;
+
+	/* method may only be called after refactorization or if one bound/constraint
+	 * has been added, i.e. when a bound has flipped after refactorization */
+	if( nS != 0 && nS != 1 )
+		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+	neig = sparseSolver->getNegativeEigenvalues( );
+
+	/* if a bound flipped, check if it did in fact remove a negative eigenvalue */
+	if( nS == 1 && detS < 0 )
+		neig--;
+
+	/* if this method is triggered after flipping bounds, inertia is now probably correct */
+	if( neig == getNAC( ) )
+		return SUCCESSFUL_RETURN;
+
+	/* get bound numbers in the order in which they are in the non-basis */
+	bounds.getFree()->getNumberArray( &numberarray );
+	for( k=0; k<nFR; k++ )
+		freeBoundIdx[k] = numberarray[k];
+
+	k = 0;
+	nAdded = getNFR( );
+	while ( neig > getNAC( ) && k < nFR )
+	{
+		oldDetS = detS;
+
+		/* If it's linearly independent, fix the next free variable at the nearest bound */
+		number = freeBoundIdx[k];
+		if( addBound_checkLI( number ) == RET_LINEARLY_INDEPENDENT )
+		{
+			/* This is just heuristics: we need the bound which gives correct multiplier sign */
+			if ( x[number] - lb[number] < ub[number] - x[number] )
+				B_status = ST_LOWER;
+			else
+				B_status = ST_UPPER;
+
+			/* Update Schur complement */
+			if( addBound( number, B_status, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+			}
+
+			/* Adjust bounds */
+			if ( B_status == ST_LOWER )
+				lb[number] = x[number];
+			else
+				ub[number] = x[number];
+		}
+		else
+		{
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf("bound[%i] = %i is linearly dependent. Do not add.\n", k, number );
+			k++;
+			continue;
+		}
+
+		/* Case 1: Schur complement has been reset, check inertia of new factorization */
+		if( nS == 0 )
+			neig = sparseSolver->getNegativeEigenvalues( );
+		/* Case 2: Schur complement has grown, check if determinant changed sign */
+		else if( oldDetS * detS < 0 )
+			neig--;
+		/* NB: Case 3: (Schur complement has shrunk) cannot happen here:
+		 * This method is called after a factorization reset or after ONE bound has been added */
+
+		k++;
+	}
+	nAdded -= getNFR( );
+
+	delete[] freeBoundIdx;
+
+	/* if there are still too many negative eigenvalues, exit */
+	if( neig > getNAC( ) )
+	{
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "Added %i bounds but KKT matrix still has %i negative eigenvalues, should be %i.\n", nAdded, neig, getNAC( ) );
+		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+	}
+	else
+	{
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "After adding %i bounds, reduced Hessian has correct inertia.\n", nAdded, neig );
+		return SUCCESSFUL_RETURN;
+	}
+}
+
+
+returnValue SQProblemSchur::repairSingularWorkingSet( )
+{
+	int_t k, number;
+	SubjectToStatus B_status;
+	int_t rank = sparseSolver->getRank( );
+	int_t nFR = getNFR( );
+	int_t defect = nFR + getNAC( ) - rank;
+
+	/* Rank detection not supported by linear solver */
+	if ( rank < 0 )
+		return RET_KKT_MATRIX_SINGULAR;
+
+	/* Consistency check */
+	if ( defect <= 0 )
+		return RET_UNKNOWN_BUG;
+
+	/* Determine zero pivots */
+	int_t *zeroPivots = new int_t[defect];
+	sparseSolver->getZeroPivots( zeroPivots );
+
+	/* Determination of zero pivots not supported by linear solver */
+	if ( zeroPivots == 0 )
+		return RET_KKT_MATRIX_SINGULAR;
+
+	/* We assume implicitly that pivots are sorted in ascending order */
+	/// \todo make sure that this is so.
+	/* Remove the one with the highest index first so not to mess up index lists */
+	int_t bndsAdded = 0;
+	for ( k=defect-1; k>-1; k-- )
+	{
+		/* Zero curvature in the Hessian: add a bound */
+		if ( zeroPivots[k] < nFR )
+		{
+			number = bounds.getFree()->getNumber( zeroPivots[k] );
+
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: KKT matrix singular! Add bound %i before refactorization.\n", number);
+
+			/* This is just heuristics: we need the bound which gives correct multiplier sign */
+			if ( x[number] - lb[number] < ub[number] - x[number] )
+				B_status = ST_LOWER;
+			else
+				B_status = ST_UPPER;
+
+			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
+			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+				return RET_ADDBOUND_FAILED;
+
+			/* Adjust bounds */
+			if ( B_status == ST_LOWER )
+				lb[number] = x[number];
+			else
+				ub[number] = x[number];
+
+			bndsAdded++;
+		}
+		/* Linearly dependent row in the Jacobian: remove a constraint */
+		else
+		{
+			number = constraints.getActive()->getNumber( zeroPivots[k]-nFR );
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
+
+			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+				return RET_REMOVECONSTRAINT_FAILED;
+
+			// AW: If this is an equality constraint, it is now inactive and
+			// will not be considered in the step computation which leads to
+			// violation of that constraint in the future. Here, I try to
+			// fix this by simply making this constraint no longer an
+			// equality.
+			// TODO: This is probably also necessary for bound constraints
+			if ( constraints.getType(number) == ST_EQUALITY )
+			{
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf( "WARNING: Making this constraint no longer an equality.\n");
+				constraints.setType( number, ST_BOUNDED );
+			}
+
+			/* Adjust dual variable */
+			y[number] = 0.0;
+		}
+	}
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: KKT matrix singular! Removed %i constraints and added %i bounds before refactorization.\n",
+					defect-bndsAdded, bndsAdded );
+
+	delete[] zeroPivots;
+
+	return SUCCESSFUL_RETURN;
+}
+
+END_NAMESPACE_QPOASES
+
+
+/*
+ *	end of file
+ */
-- 
2.43.0


From 5be26aa8794d968a413c7b679fc45f91d1a73e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 02/55] fix: SparseMatrixRow::getSparseSubmatrix no longer
 writes to stderr unconditionally

---
 src/Matrices.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..4094d20 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1687,8 +1687,6 @@ returnValue SparseMatrixRow::getSparseSubmatrix (
 				int_t rowoffset, int_t coloffset, int_t& numNonzeros,	int_t* irn,
 				int_t* jcn, real_t* avals, BooleanType only_lower_triangular /*= BT_FALSE */) const
 {
-	fprintf(stderr, "SparseMatrixRow::getSparseSubmatrix not implemented!\n");
-
 	return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 }
 
-- 
2.43.0


From 83a209decded19c9d7e3e2e9ee219b6eb488a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 03/55] fix: unimplemented curvature check reports through the
 message handler, not printf

---
 src/SolutionAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..8b8d2e2 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -523,7 +523,7 @@ returnValue SolutionAnalysis::getVarianceCovariance(	SQProblem* const qp,
  */
 returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProblem* qp )
 {
-  printf("checkCurvatureOnStronglyActiveConstraints( SQProblem* qp ) not yet implemented for standard qpOASES!\n");
+  THROWERROR( RET_NOT_YET_IMPLEMENTED );
   return RET_INERTIA_CORRECTION_FAILED;
 }
 
-- 
2.43.0


From 5d99d0aedc785f94517d7ccc02e08446a2123451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 04/55] fix: C preset 'reliable' no longer falls through to the
 MPC settings

---
 interfaces/c/qpOASES_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..f532dd6 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
-- 
2.43.0


From 228313dd5482e55d7a9b0072208cace599b06d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 05/55] fix: C options initialise and transfer rcondSMin and
 enableInertiaCorrection

---
 interfaces/c/qpOASES_wrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index f532dd6..6b4ebe1 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -128,6 +128,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
 
+	options->rcondSMin                     =  1.0e-14;
+	options->enableInertiaCorrection       =  BT_TRUE;
+	options->printResiduals                =  BT_FALSE;
 
 	switch ( mode )
 	{
@@ -227,6 +230,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
     to->dropEqConPriority             =  from->dropEqConPriority;
     to->dropIneqConPriority           =  from->dropIneqConPriority;
 
+	to->rcondSMin                     =  from->rcondSMin;
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+
 	return 0;
 }
 
-- 
2.43.0


From 2f2deea9614c3f4f3121a59e6015374deaaf2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 06/55] fix: copying a Flipper transfers its dimensions

---
 src/Flipper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
-- 
2.43.0


From 17ab7312a476868204117b54d4ad6bf7348b8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 07/55] fix: SparseMatrixRow::duplicate copies its index arrays
 over their own lengths

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 4094d20..de4d1be 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1488,14 +1488,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
-- 
2.43.0


From 55e3745e50125f6f4ea5023e5c00117a5d8a880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 08/55] fix: duplicating a dense matrix keeps its leading
 dimension

---
 src/Matrices.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index de4d1be..29e143a 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -117,14 +117,15 @@ Matrix *DenseMatrix::duplicate( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
+		real_t* val_new = new real_t[nRows*leaDim];
+		for (int_t i = 0; i < nRows; ++i)
+			memcpy( &(val_new[i*leaDim]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
+		dupl = new DenseMatrix(nRows, nCols, leaDim, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
+		dupl = new DenseMatrix(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
@@ -613,14 +614,15 @@ SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
+		real_t* val_new = new real_t[nRows*leaDim];
+		for (int_t i = 0; i < nRows; ++i)
+			memcpy( &(val_new[i*leaDim]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
+		dupl = new SymDenseMat(nRows, nCols, leaDim, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
+		dupl = new SymDenseMat(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
-- 
2.43.0


From 92f7a99a9fc51b95a66ca268b95ecb62ea54ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 09/55] fix: Schur complement routines release their workspace
 on error exits

---
 src/SQProblemSchur.cpp | 44 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 02cb09c..ac33b57 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -772,6 +772,13 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 			if ( constraintProduct != 0 )
 			{
 				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				delete [] icolsSIdx;
+				delete [] icolsNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] MNvals;
+				delete [] MNpos;
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 			int_t numNonzerosA;
@@ -1960,6 +1967,15 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			if ( constraintProduct != 0 )
 			{
 				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				delete [] iSIdx;
+				delete [] iNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] Nvals;
+				delete [] Npos;
+				delete [] Mvals;
+				delete [] Mpos;
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 
@@ -2621,6 +2637,7 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -2638,6 +2655,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		delete [] p;
+		delete [] q;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -2933,13 +2952,19 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 		{
 		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			retval = sparseSolver->solve(dim, rhs, sol);
 
 			if (retval != SUCCESSFUL_RETURN)
 			{
 				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				delete [] sol;
+				delete [] rhs;
 				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 			}
 
@@ -2947,20 +2972,32 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 			{
 				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 			}
 
 			/* Transfer Schur complement solution for the free variables to the correct places */
 			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
 			{
 				real_t rnrm;
 				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 
 				/* early termination of residual norm small enough */
 				if ( options.printLevel == PL_HIGH )
@@ -3188,6 +3225,9 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		delete [] new_Scol;
+		delete [] sol;
+		delete [] rhs;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -3437,7 +3477,7 @@ returnValue SQProblemSchur::correctInertia( )
 	real_t oldDetS;
 	int_t nFR = getNFR( );
 	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
+	int_t *freeBoundIdx;
 	int_t *numberarray;
 
 	/* method may only be called after refactorization or if one bound/constraint
@@ -3456,6 +3496,7 @@ returnValue SQProblemSchur::correctInertia( )
 
 	/* get bound numbers in the order in which they are in the non-basis */
 	bounds.getFree()->getNumberArray( &numberarray );
+	freeBoundIdx = new int_t[nFR];
 	for( k=0; k<nFR; k++ )
 		freeBoundIdx[k] = numberarray[k];
 
@@ -3480,6 +3521,7 @@ returnValue SQProblemSchur::correctInertia( )
 			{
 				if ( options.printLevel == PL_HIGH )
 					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				delete [] freeBoundIdx;
 				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
 			}
 
-- 
2.43.0


From ab200432702564bdad8e4c481c4dc20f74503599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 10/55] fix: SparseMatrix::times releases its column buffer
 once, after the loop over the columns

---
 src/Matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 29e143a..7b1c657 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1243,8 +1243,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
-- 
2.43.0


From 207feaabb3462f1744fe022e4b86f9b8e7861fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 11/55] fix: SparseMatrix::getSparseSubmatrix releases its
 workspace when rejecting arguments

---
 src/Matrices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 7b1c657..4fc6ceb 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -978,7 +978,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1014,7 +1017,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
-- 
2.43.0


From a5e0d6407f40d8a718fdccfd69462cd2101c2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 12/55] fix: readOqpData releases the arrays it allocated, not
 the caller's pointers

---
 src/OQPinterface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..8cf5816 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -182,7 +182,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +196,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +211,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
-- 
2.43.0


From 8197372a0f4eaa7a0657bb026353b16ac2961826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 13/55] fix: readOqpData accepts null constraint pointers for
 problems without constraints

---
 src/OQPinterface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index 8cf5816..26629c2 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,9 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A != 0 ) *A = 0;
+		if ( lbA != 0 ) *lbA = 0;
+		if ( ubA != 0 ) *ubA = 0;
 	}
 
 	if ( xOpt != 0 )
-- 
2.43.0


From 90945c3d7bdf9fe6428e49a765d44d1da975bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 14/55] fix: readFromFile fails when the file ends before all
 values are read

---
 src/Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..728c893 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%f ", &float_data ) != 1 )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%lf ", &float_data ) != 1 )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 )
 		#endif
 		{
 			fclose( datafile );
-- 
2.43.0


From 0063612e61ff03060142b766d63b0f56c61a6245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 15/55] fix: MAT file export reports failed writes

---
 src/QProblem.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..dd60b2e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6372,24 +6372,28 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 
 	int_t nV = getNV();
 	int_t nC = getNC();
+	BooleanType isOk = BT_TRUE;
 
 	real_t* Hfull = H->full();
-	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
+	if ( writeIntoMatFile( matFile, Hfull, nV,nV, "H"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 	delete[] Hfull;
 
-	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
+	if ( writeIntoMatFile( matFile, g,     nV,1,  "g"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
 	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
+	if ( writeIntoMatFile( matFile, Afull, nC,nV, "A"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 	delete[] Afull;
 
-	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
-	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-	writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" );
-	writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" );
+	if ( writeIntoMatFile( matFile, lb,    nV,1,  "lb"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, ub,    nV,1,  "ub"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
 	fclose( matFile );
 
+	if ( isOk == BT_FALSE )
+		return RET_UNABLE_TO_WRITE_FILE;
+
 	return SUCCESSFUL_RETURN;
 
 	#else /* __SUPPRESSANYOUTPUT__ */
@@ -6420,14 +6424,15 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	int_t nFX  = getNFX();
 	int_t nAC  = getNAC();
 	int_t nIAC = getNIAC();
+	BooleanType isOk = BT_TRUE;
 
 
-	writeIntoMatFile( matFile, T, sizeT,sizeT, "T" );
-	writeIntoMatFile( matFile, Q, nV,nV, "Q" );
+	if ( writeIntoMatFile( matFile, T, sizeT,sizeT, "T" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Q, nV,nV, "Q" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
-	writeIntoMatFile( matFile, Ax, nC,1, "Ax" );
-	writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" );
-	writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" );
+	if ( writeIntoMatFile( matFile, Ax, nC,1, "Ax" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
 
 	int_t *FR_idx, *FX_idx, *AC_idx, *IAC_idx;
@@ -6436,13 +6441,16 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	constraints.getActive( )->getNumberArray( &AC_idx );
 	constraints.getInactive( )->getNumberArray( &IAC_idx );
 
-	writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  );
-	writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  );
-	writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  );
-	writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" );
+	if ( writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+	if ( writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
 	fclose( matFile );
 
+	if ( isOk == BT_FALSE )
+		return RET_UNABLE_TO_WRITE_FILE;
+
 	return SUCCESSFUL_RETURN;
 
 	#else /* __SUPPRESSANYOUTPUT__ */
-- 
2.43.0


From 7f83726861631933681a8100280f4531e6d71509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 16/55] fix: MAT file export skips a Hessian or constraint
 matrix that is not present

---
 src/QProblem.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index dd60b2e..0ce0b2a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6374,15 +6374,21 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	int_t nC = getNC();
 	BooleanType isOk = BT_TRUE;
 
-	real_t* Hfull = H->full();
-	if ( writeIntoMatFile( matFile, Hfull, nV,nV, "H"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
-	delete[] Hfull;
+	if ( H != 0 )
+	{
+		real_t* Hfull = H->full();
+		if ( writeIntoMatFile( matFile, Hfull, nV,nV, "H"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+		delete[] Hfull;
+	}
 
 	if ( writeIntoMatFile( matFile, g,     nV,1,  "g"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
-	real_t* Afull = A->full();
-	if ( writeIntoMatFile( matFile, Afull, nC,nV, "A"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
-	delete[] Afull;
+	if ( A != 0 )
+	{
+		real_t* Afull = A->full();
+		if ( writeIntoMatFile( matFile, Afull, nC,nV, "A"   ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
+		delete[] Afull;
+	}
 
 	if ( writeIntoMatFile( matFile, lb,    nV,1,  "lb"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 	if ( writeIntoMatFile( matFile, ub,    nV,1,  "ub"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
-- 
2.43.0


From c0eb5bfa51ad33a040caca578467667a49f45ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:19 +0000
Subject: [PATCH 17/55] fix: Schur complement routines release their workspace
 on the remaining error exits

---
 src/SQProblemSchur.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index ac33b57..df9242c 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -2693,6 +2693,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] p;
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -3616,7 +3618,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
 			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_ADDBOUND_FAILED;
+			}
 
 			/* Adjust bounds */
 			if ( B_status == ST_LOWER )
@@ -3634,7 +3639,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
 
 			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_REMOVECONSTRAINT_FAILED;
+			}
 
 			// AW: If this is an equality constraint, it is now inactive and
 			// will not be considered in the step computation which leads to
-- 
2.43.0


From 7762addd86556c84f9ba49b36ebab5d14b106db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:19 +0000
Subject: [PATCH 18/55] fix: Matlab/Octave interfaces release the Cholesky
 factor array with delete[]

---
 interfaces/matlab/qpOASES.cpp          | 4 ++--
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES.cpp          | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 5c5274f..ff59118 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -564,7 +564,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -590,7 +590,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							isSparse
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index b10aede..9c97a42 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -660,7 +660,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 0c1fd01..7c3c6c5 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -541,7 +541,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -566,7 +566,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,guessedConstraints,R
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 7ddfa32..84d6bc8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -649,7 +649,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
-- 
2.43.0


From fc69932f721c40b9ff27f745de95cdf3933fb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 19/55] fix: hotstart with inconsistent bounds reports
 infeasibility, not success

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0ce0b2a..2cd8e66 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,7 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..a1d3cd6 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
 
 	++count;
 
-- 
2.43.0


From 0cad372066ced52fd1a84cb74128f1964a03c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 20/55] fix: solveCurrentEQP stops at the first right-hand side
 that fails

---
 src/QProblem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2cd8e66..61a6407 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -759,6 +759,9 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			g_in, lbA_in, ubA_in, lb_in, ub_in, BT_FALSE, BT_FALSE,
 			delta_xFX, delta_xFR, delta_yAC, delta_yFX );
 
+		if ( returnvalue != SUCCESSFUL_RETURN )
+			break;
+
 		for ( jj = 0; jj < nFX; ++jj )
 			x_out[FX_idx[jj]] = delta_xFX[jj];
 		for ( jj = 0; jj < nFR; ++jj )
-- 
2.43.0


From bdb15c3b298eb01d16e2c851f4d35ac387b0db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 21/55] fix: regulariseHessian fails whenever the Hessian
 diagonal cannot be shifted

---
 src/QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a1d3cd6..3f7234d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2020,7 +2020,7 @@ returnValue QProblemB::regulariseHessian( )
 		{
 			regVal = H->getNorm() * options.epsRegularisation;
 
-			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
+			if ( H->addToDiag( regVal ) != SUCCESSFUL_RETURN )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
 		}
 
-- 
2.43.0


From c13de438738114a44a5c9cb2c6a876a59037406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 22/55] fix: computeProjectedCholesky fails when the projected
 Hessian cannot be formed

---
 src/QProblem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 61a6407..b78a027 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2038,6 +2038,7 @@ returnValue QProblem::setupSubjectToType(	const real_t* const lb_new, const real
  */
 returnValue QProblem::computeProjectedCholesky( )
 {
+	returnValue returnvalue = SUCCESSFUL_RETURN;
 	int_t i, j;
 	int_t nV  = getNV( );
 	int_t nZ  = getNZ( );
@@ -2070,7 +2071,7 @@ returnValue QProblem::computeProjectedCholesky( )
 			if ( usingRegularisation() == BT_TRUE )
 			{
 				Id = createDiagSparseMat( nV, regVal );
-				Id->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
+				returnvalue = Id->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
 				delete Id;
 			}
 			else
@@ -2083,7 +2084,7 @@ returnValue QProblem::computeProjectedCholesky( )
 
 		case HST_IDENTITY:
 			Id = createDiagSparseMat( nV, 1.0 );
-			Id->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
+			returnvalue = Id->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
 			delete Id;
 			break;
 
@@ -2101,10 +2102,13 @@ returnValue QProblem::computeProjectedCholesky( )
 					H->getCol (FR_idx[j], bounds.getFree (), 1.0, &R[j*nV]);
 			} else {
 				/* this is expensive if Z is large! */
-				H->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
+				returnvalue = H->bilinear(bounds.getFree(), nZ, Q, nV, R, nV);
 			}
 	}
 
+	if ( returnvalue != SUCCESSFUL_RETURN )
+		return THROWERROR( returnvalue );
+
 	/* R'*R = Z'*H*Z */
 	la_int_t info = 0;
 	la_uint_t _nZ = (la_uint_t)nZ, _nV = (la_uint_t)nV;
-- 
2.43.0


From 4a8cfc88d7daba956d617c96cee1b595095573d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 23/55] fix: setupAuxiliaryWorkingSet reports a bound it could
 not fix

---
 src/QProblem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b78a027..9cf1fac 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2409,7 +2409,8 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 	{
 		for (i = 0; i < nV; i++)
 			if (bounds.getStatus(i) == ST_INACTIVE)
-				bounds.moveFreeToFixed(i, auxiliaryBounds->getStatus(i));
+				if ( bounds.moveFreeToFixed(i, auxiliaryBounds->getStatus(i)) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
 
 		return SUCCESSFUL_RETURN;
 	}
-- 
2.43.0


From b1cd69009c9be0a791a51d69de6eaec51ddfdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 24/55] fix: setupAuxiliaryQP returns the errors it detects

---
 src/QProblem.cpp  | 8 ++++----
 src/QProblemB.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 9cf1fac..6b59127 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5704,7 +5704,7 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 		/* 3) Setup guessed working sets afresh. */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,guessedConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* 4) Computes Cholesky decomposition of projected Hessian
 		 *    This now handles all special cases (no active bounds/constraints, no nullspace) */
@@ -5715,7 +5715,7 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 	{
 		/* ... WITHOUT REFACTORISATION: */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,guessedConstraints,BT_FALSE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
 
@@ -5731,7 +5731,7 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	A->times(1, 1.0, x, nV, 0.0, Ax, nC);
 	for ( j=0; j<nC; ++j )
@@ -5742,7 +5742,7 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 	/* (also sets Ax_l and Ax_u) */
 	if ( setupAuxiliaryQPbounds( 0,0,BT_FALSE ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	return SUCCESSFUL_RETURN;
 }
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3f7234d..f64dedc 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3005,7 +3005,7 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 		/* 2) Setup guessed working set afresh. */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,BT_TRUE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* 3) Calculate Cholesky decomposition. */
 		if ( computeCholesky( ) != SUCCESSFUL_RETURN )
@@ -3015,7 +3015,7 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 	{
 		/* ... WITHOUT REFACTORISATION: */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,BT_FALSE ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
 
@@ -3027,10 +3027,10 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	if ( setupAuxiliaryQPbounds( BT_FALSE ) != SUCCESSFUL_RETURN )
-		THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	return SUCCESSFUL_RETURN;
 }
-- 
2.43.0


From 7680deada59277ace78efdea452d2b933d5038b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 25/55] fix: a bound or constraint that cannot be flipped is
 reported

---
 src/QProblem.cpp  | 6 ++++--
 src/QProblemB.cpp | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 6b59127..7bddc8a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -3952,7 +3952,8 @@ returnValue QProblem::removeConstraint(	int_t number,
 				hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
-				constraints.flipFixed(number);
+				if ( constraints.flipFixed(number) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
 				tabularOutput.idxAddC = number;
 				tabularOutput.excAddC = 2;
 
@@ -4204,7 +4205,8 @@ returnValue QProblem::removeBound(	int_t number,
 					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
-				bounds.flipFixed(number);
+				if ( bounds.flipFixed(number) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_MOVING_BOUND_FAILED );
 				tabularOutput.idxAddB = number;
 				tabularOutput.excAddB = 2;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index f64dedc..05bb6df 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3642,7 +3642,11 @@ returnValue QProblemB::removeBound(	int_t number,
 				hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R );
-				bounds.flipFixed(number);
+				if ( bounds.flipFixed(number) != SUCCESSFUL_RETURN )
+				{
+					delete[] rhs; delete[] r;
+					return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
 
 				switch (bounds.getStatus(number))
 				{
@@ -3672,7 +3676,8 @@ returnValue QProblemB::removeBound(	int_t number,
 	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) )
 	{
 		flipper.get( &bounds,R );
-		bounds.flipFixed(number);
+		if ( bounds.flipFixed(number) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_MOVING_BOUND_FAILED );
 
 		switch (bounds.getStatus(number))
 		{
-- 
2.43.0


From fd98d2b2dcb42842df5f9c9a91b899e02e9a5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 26/55] fix: removing a bound or constraint fails if the
 exchanged one cannot be added

---
 src/QProblem.cpp       | 12 ++++++++----
 src/SQProblemSchur.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 7bddc8a..a4f8110 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4007,12 +4007,14 @@ returnValue QProblem::removeConstraint(	int_t number,
 
 		if ( addBoundNotConstraint )
 		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddB = 1;
 		}
 		else
 		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddC = 1;
 		}
 	}
@@ -4247,12 +4249,14 @@ returnValue QProblem::removeBound(	int_t number,
 
 			if ( addBoundNotConstraint )
 			{
-				addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+				if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVEBOUND_FAILED );
 				tabularOutput.excAddB = 1;
 			}
 			else
 			{
-				addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+				if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVEBOUND_FAILED );
 				tabularOutput.excAddC = 1;
 			}
 		}
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index df9242c..51688a6 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1791,12 +1791,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 		if ( addBoundNotConstraint )
 		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddB = 1;
 		}
 		else
 		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddC = 1;
 		}
 	}
@@ -2166,12 +2168,14 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 		if ( addBoundNotConstraint )
 		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
 			tabularOutput.excAddB = 1;
 		}
 		else
 		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
 			tabularOutput.excAddC = 1;
 		}
 	}
-- 
2.43.0


From 2a1c59bd63a5c90b0db85d3b969a337362c6bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 27/55] fix: dropInfeasibles reports a bound or constraint it
 could not remove

---
 src/QProblem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a4f8110..6c22134 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6338,13 +6338,15 @@ returnValue QProblem::dropInfeasibles( int_t BC_number, SubjectToStatus BC_statu
 		// drop active equality or active bound we have found
 		if (y_min_isBound) {
 			SubjectToStatus status_ = bounds.getStatus (y_min_number);
-			removeBound (y_min_number, BT_TRUE, BT_FALSE, BT_FALSE);
+			if ( removeBound (y_min_number, BT_TRUE, BT_FALSE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return RET_REMOVE_FROM_ACTIVESET_FAILED;
 			bounds.setStatus (y_min_number, (status_ == ST_LOWER) ? ST_INFEASIBLE_LOWER : ST_INFEASIBLE_UPPER);
 			// TODO: fix duals y[]
 			/* fprintf (stdFile, "Dropping bounds %d for %s %d\n", y_min_number, BC_isBound?"bound":"constraint", BC_number); */
 		} else {
 			SubjectToStatus status_ = constraints.getStatus (y_min_number);
-			removeConstraint (y_min_number, BT_TRUE, BT_FALSE, BT_FALSE);
+			if ( removeConstraint (y_min_number, BT_TRUE, BT_FALSE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return RET_REMOVE_FROM_ACTIVESET_FAILED;
 			constraints.setStatus (y_min_number, (status_ == ST_LOWER) ? ST_INFEASIBLE_LOWER : ST_INFEASIBLE_UPPER);
 			// TODO: fix duals y[]
 			/* fprintf (stdFile, "Dropping constraint %d for %s %d\n", y_min_number, BC_isBound?"bound":"constraint", BC_number); */
-- 
2.43.0


From 10282f12a995e1e72545b93a3f77ddbe4c314db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 28/55] fix: flipping in the Schur complement solver reports
 moves that fail

---
 src/SQProblemSchur.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 51688a6..555506c 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1675,12 +1675,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 				switch ( oldStatus )
 				{
 					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
+						if ( constraints.moveInactiveToActive( number, ST_UPPER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
 						ubA[number] = lbA[number];
 						Ax_l[number] = -Ax_u[number];
 						break;
 					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
+						if ( constraints.moveInactiveToActive( number, ST_LOWER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
 						lbA[number] = ubA[number];
 						Ax_u[number] = -Ax_l[number];
 						break;
@@ -1712,12 +1714,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 				switch ( oldStatus )
 				{
 					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
+						if ( constraints.moveInactiveToActive( number, ST_UPPER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
 						ubA[number] = lbA[number];
 						Ax_l[number] = -Ax_u[number];
 						break;
 					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
+						if ( constraints.moveInactiveToActive( number, ST_LOWER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_CONSTRAINT_FAILED );
 						lbA[number] = ubA[number];
 						Ax_u[number] = -Ax_l[number];
 						break;
@@ -2058,11 +2062,13 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 				switch ( oldStatus )
 				{
 					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
+						if ( bounds.moveFreeToFixed( number, ST_UPPER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_BOUND_FAILED );
 						ub[number] = lb[number];
 						break;
 					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
+						if ( bounds.moveFreeToFixed( number, ST_LOWER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_BOUND_FAILED );
 						lb[number] = ub[number];
 						break;
 					default:
@@ -2093,11 +2099,13 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 				switch ( oldStatus )
 				{
 					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
+						if ( bounds.moveFreeToFixed( number, ST_UPPER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_BOUND_FAILED );
 						ub[number] = lb[number];
 						break;
 					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
+						if ( bounds.moveFreeToFixed( number, ST_LOWER ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_MOVING_BOUND_FAILED );
 						lb[number] = ub[number];
 						break;
 					default:
-- 
2.43.0


From e1b5248902b1140c024459cf560ae4d185b8ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 29/55] fix: setupNewAuxiliaryQP fails if no attempt gives a
 factorisation or bounds

---
 src/SQProblem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..8747784 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -500,13 +500,17 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
             break;
     }
 
+    if ( returnvalue != SUCCESSFUL_RETURN )
+        return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
     /* adjust lb/ub if we changed the old active set in the second try
      */
     if (n_try > 0) {
 		// as per setupAuxiliaryQPbounds assumptions ... oh the troubles
 		for (int_t ii = 0; ii < nC; ++ii)
 			Ax_l[ii] = Ax_u[ii] = Ax[ii];
-        setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE );
+        if ( setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE ) != SUCCESSFUL_RETURN )
+            return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
 	status = QPS_AUXILIARYQPSOLVED;
-- 
2.43.0


From c68dae9d1fbfe6b6afd4868def61a762422fb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 30/55] fix: Schur complement routines report solves and
 updates that fail

---
 src/SQProblemSchur.cpp | 73 +++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 555506c..f6abd8b 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -820,7 +820,8 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 	if ( !found )
 		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
 
-	updateSchurQR( idxDeleted );
+	if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
 
 	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
 	if( rcondS < options.rcondSMin )
@@ -1237,7 +1238,8 @@ returnValue SQProblemSchur::addBound(	int_t number,
 	if ( !found )
 		return THROWERROR( RET_ADDBOUND_FAILED );
 
-	updateSchurQR( idxDeleted );
+	if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDBOUND_FAILED );
 
 	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
 	if( rcondS < options.rcondSMin )
@@ -1692,7 +1694,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 			}
 			else
 			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
+				if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			}
 		}
 		else if ( sModType == 2 )
@@ -1706,7 +1709,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 				hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
+				if ( undoDeleteFromSchurComplement( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 
 				/* Flip bounds */
 				tabularOutput.idxAddC = number;
@@ -1731,7 +1735,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 			}
 			else
 			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
+				if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			}
 		}
 		else if ( sModType == 3 )
@@ -1749,12 +1754,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 					case ST_LOWER:
 						ubA[number] = lbA[number];
 						Ax_l[number] = -Ax_u[number];
-						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						if ( addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 						break;
 					case ST_UPPER:
 						lbA[number] = ubA[number];
 						Ax_u[number] = -Ax_l[number];
-						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						if ( addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 						break;
 					default:
 						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
@@ -1772,7 +1779,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 	}
 	else
 	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
+		if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 	}
 
 	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
@@ -2077,7 +2085,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			}
 			else
 			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
+				if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVEBOUND_FAILED );
 			}
 		}
 		else if ( sModType == 2 )
@@ -2091,7 +2100,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 				hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
+				if ( undoDeleteFromSchurComplement( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVEBOUND_FAILED );
 
 				/* Flip bounds */
 				tabularOutput.idxAddB = number;
@@ -2114,7 +2124,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			}
 			else
 			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
+				if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_REMOVEBOUND_FAILED );
 			}
 		}
 		else if ( sModType == 3 )
@@ -2131,11 +2142,13 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 				{
 					case ST_LOWER:
 						ub[number] = lb[number];
-						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						if ( addBound( number, ST_UPPER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVEBOUND_FAILED );
 						break;
 					case ST_UPPER:
 						lb[number] = ub[number];
-						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						if ( addBound( number, ST_LOWER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVEBOUND_FAILED );
 						break;
 					default:
 						return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -2153,7 +2166,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 	}
 	else
 	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
+		if ( updateSchurQR( idxDeleted ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_REMOVEBOUND_FAILED );
 	}
 
 	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
@@ -2439,6 +2453,9 @@ returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
 	if ( INFO != 0 )
 	{
 		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
+		delete[] IWORK;
+		delete[] WORK;
+		return THROWERROR( RET_QR_FACTORISATION_FAILED );
 	}
 
 	if ( options.printLevel == PL_HIGH )
@@ -2655,13 +2672,26 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	}
 
 	/* compute q = M^T K^{-1} r - q */
-	computeMTransTimes(1.0, sol, -1.0, q);
+	retval = computeMTransTimes(1.0, sol, -1.0, q);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		delete [] q;
+		return THROWERROR( retval );
+	}
 
 	/* Solve linear system with Schur complement. */
 	real_t* p = new real_t[nS];
-	backsolveSchurQR( nS, q, 1, p );
+	retval = backsolveSchurQR( nS, q, 1, p );
 
-	computeMTimes(-1.0, p, 1.0, rhs);
+	if (retval == SUCCESSFUL_RETURN)
+		retval = computeMTimes(-1.0, p, 1.0, rhs);
+
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		delete [] p;
+		delete [] q;
+		return THROWERROR( retval );
+	}
 
 	retval = sparseSolver->solve(dim, rhs, sol);
 	if (retval != SUCCESSFUL_RETURN)
@@ -3245,7 +3275,14 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
-	computeMTransTimes(1.0, sol, 0.0, new_Scol);
+	retval = computeMTransTimes(1.0, sol, 0.0, new_Scol);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		delete [] new_Scol;
+		delete [] sol;
+		delete [] rhs;
+		return THROWERROR( retval );
+	}
 
 	/* Take care of off-diagonal elements in N. */
 	for ( i=0; i<numNonzerosN; i++ )
-- 
2.43.0


From ecaec18c0fce99a763b5983b561c397621e4068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 31/55] fix: Schur complement solver fails when matrix entries
 cannot be extracted

---
 src/SQProblemSchur.cpp | 61 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index f6abd8b..ff1563f 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -782,7 +782,17 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 			int_t numNonzerosA;
-			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
+			if ( A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals ) != SUCCESSFUL_RETURN )
+			{
+				delete [] icolsSIdx;
+				delete [] icolsNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] MNvals;
+				delete [] MNpos;
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+			}
 			delete [] irn;
 
 			int_t numNonzerosM = 0;
@@ -1956,7 +1966,19 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 						}
 					iNumber[iLength++] = number;
 
-					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+					if ( H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals ) != SUCCESSFUL_RETURN )
+					{
+						delete [] iSIdx;
+						delete [] iNumber;
+						delete [] vals;
+						delete [] jcn;
+						delete [] irn;
+						delete [] Nvals;
+						delete [] Npos;
+						delete [] Mvals;
+						delete [] Mpos;
+						return THROWERROR( RET_REMOVEBOUND_FAILED );
+					}
 
 					for ( int_t i=0; i<numNonzeros; i++ )
 					{
@@ -2004,7 +2026,19 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 					iLength++;
 				}
 
-			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+			if ( A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals ) != SUCCESSFUL_RETURN )
+			{
+				delete [] iSIdx;
+				delete [] iNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] Nvals;
+				delete [] Npos;
+				delete [] Mvals;
+				delete [] Mpos;
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			}
 
 			for ( int_t i=0; i<numNonzeros; i++ )
 			{
@@ -3100,7 +3134,8 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 			break;
 
 		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			if ( H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_MATRIX_FACTORISATION_FAILED );
 			break;
 	}
 	// TODO: For now, we regularize every time
@@ -3114,7 +3149,8 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
 		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 	}
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	if ( A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_MATRIX_FACTORISATION_FAILED );
 	numNonzeros += numNonzerosA;
 
 	// Get the values
@@ -3122,6 +3158,7 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 	int_t* irn = new int_t[numNonzeros];
 	int_t* jcn = new int_t[numNonzeros];
 	numNonzeros = 0;
+	returnValue retval = SUCCESSFUL_RETURN;
 	switch ( hessianType )
 	{
 		case HST_ZERO:
@@ -3138,7 +3175,7 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 			break;
 
 		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
+			retval = H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
 			break;
 	}
 
@@ -3153,12 +3190,20 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 		}
 	}
 
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
+	if ( retval == SUCCESSFUL_RETURN )
+		retval = A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
+	if ( retval != SUCCESSFUL_RETURN )
+	{
+		delete [] jcn;
+		delete [] irn;
+		delete [] avals;
+		return THROWERROR( RET_MATRIX_FACTORISATION_FAILED );
+	}
 	numNonzeros += numNonzerosA;
 
 	// Call the linear solver
 	sparseSolver->reset();
-	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
+	retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
 	delete [] jcn;
 	delete [] irn;
 	delete [] avals;
-- 
2.43.0


From 31e9183d163dd05a03b39bb279b94dce87e19e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 32/55] fix: repairSingularWorkingSet clears the multiplier of
 the removed constraint

---
 src/SQProblemSchur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index ff1563f..78e98cc 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3752,7 +3752,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 			}
 
 			/* Adjust dual variable */
-			y[number] = 0.0;
+			y[getNV( )+number] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 3de6ce1b5f04be1708f35c248f15de65dad3ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 33/55] fix: Schur complement setupAuxiliaryQP fails if the
 auxiliary bounds cannot be set up

---
 src/SQProblemSchur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 78e98cc..ea27d27 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -504,7 +504,8 @@ returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
 	/* adjust lb/ub */
 	for (int_t ii = 0; ii < nC; ++ii)
 		Ax_l[ii] = Ax_u[ii] = Ax[ii];
-	setupAuxiliaryQPbounds (&bounds, &constraints, BT_FALSE);
+	if ( setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 	status = QPS_AUXILIARYQPSOLVED;
 
-- 
2.43.0


From aa40aba0e4fc5b4faeb44635697423dad4c32254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 34/55] fix: addBound fails if the bound cannot be moved to the
 end of the free variables

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 6c22134..afd4f22 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -3379,7 +3379,7 @@ returnValue QProblem::addBound(	int_t number, SubjectToStatus B_status,
 	int_t lastfreenumber = bounds.getFree( )->getLastNumber( );
 	if ( lastfreenumber != number )
 		if ( bounds.swapFree( number,lastfreenumber ) != SUCCESSFUL_RETURN )
-			THROWERROR( RET_ADDBOUND_FAILED );
+			return THROWERROR( RET_ADDBOUND_FAILED );
 
 
 	int_t* FR_idx;
-- 
2.43.0


From 28abaf54a19db290f8e6e8443e7e9918b2ba8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:53 +0000
Subject: [PATCH 35/55] fix: curvature check restores the solver status when it
 fails and reports bounds it could not restore

---
 src/SolutionAnalysis.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 8b8d2e2..74ea70e 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -558,7 +558,10 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   for( k=0; k<nFX; k++ )
     if( getAbs(qp->x[FX_idx[k]]) > eps )
       if ( qp->bounds.moveFixedToFree( FX_idx[k] ) != SUCCESSFUL_RETURN )
-	return THROWERROR( RET_REMOVEBOUND_FAILED );
+      {
+        qp->status = saveStatus;
+        return THROWERROR( RET_REMOVEBOUND_FAILED );
+      }
 
   // Do a new factorization and check the inertia
   ret = qp->resetSchurComplement( BT_FALSE );
@@ -569,7 +572,8 @@ returnValue SolutionAnalysis::checkCurvatureOnStronglyActiveConstraints( SQProbl
   // Add all bounds that have been removed
   for( k=0; k<nFX; k++ )
     if( qp->bounds.getStatus( FX_idx[k] ) == ST_INACTIVE )
-      qp->bounds.moveFreeToFixed( FX_idx[k], saveBounds.getStatus( FX_idx[k] ) );
+      if ( qp->bounds.moveFreeToFixed( FX_idx[k], saveBounds.getStatus( FX_idx[k] ) ) != SUCCESSFUL_RETURN )
+        ret = RET_ADDBOUND_FAILED;
 
   qp->status = saveStatus;
   return ret;
-- 
2.43.0


From 156a98b6d5daec845c8252f60b1263f0518d305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 36/55] fix: file export reports data that could not be written

---
 src/QProblem.cpp |  6 ++++--
 src/Utils.cpp    | 32 +++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index afd4f22..d476c59 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6411,7 +6411,8 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	if ( writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 	if ( writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
-	fclose( matFile );
+	if ( fclose( matFile ) != 0 )
+		isOk = BT_FALSE;
 
 	if ( isOk == BT_FALSE )
 		return RET_UNABLE_TO_WRITE_FILE;
@@ -6468,7 +6469,8 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	if ( writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 	if ( writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" ) == RET_UNABLE_TO_WRITE_FILE ) isOk = BT_FALSE;
 
-	fclose( matFile );
+	if ( fclose( matFile ) != 0 )
+		isOk = BT_FALSE;
 
 	if ( isOk == BT_FALSE )
 		return RET_UNABLE_TO_WRITE_FILE;
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 728c893..eb21e4e 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -425,8 +425,19 @@ returnValue writeIntoFile(	const real_t* const data, int_t nrow, int_t ncol,
 		fprintf( datafile, "\n" );
 	}
 
-	/* 3) Close file. */
-	fclose( datafile );
+	/* 3) Close file, data that could not be written may show up only now. */
+	BooleanType isOk = BT_TRUE;
+	if ( ferror( datafile ) != 0 )
+		isOk = BT_FALSE;
+	if ( fclose( datafile ) != 0 )
+		isOk = BT_FALSE;
+
+	if ( isOk == BT_FALSE )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
@@ -488,8 +499,19 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 	for( i=0; i<n; ++i )
 		fprintf( datafile, "%d\n",(int)(integer[i]) );
 
-	/* 3) Close file. */
-	fclose( datafile );
+	/* 3) Close file, data that could not be written may show up only now. */
+	BooleanType isOk = BT_TRUE;
+	if ( ferror( datafile ) != 0 )
+		isOk = BT_FALSE;
+	if ( fclose( datafile ) != 0 )
+		isOk = BT_FALSE;
+
+	if ( isOk == BT_FALSE )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
@@ -529,7 +551,7 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
 		return RET_UNABLE_TO_WRITE_FILE;
 
-	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < 1 )
+	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < (unsigned long)(var.nCharName) )
 		return RET_UNABLE_TO_WRITE_FILE;
 
 	int_t ii, jj;
-- 
2.43.0


From 7f8a838588a96e090ac0204d81e26cfc3e66f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 37/55] fix: SparseMatrix::writeToFile reports data that could
 not be written

---
 src/Matrices.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 4fc6ceb..bed6cc3 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1425,6 +1425,9 @@ returnValue SparseMatrix::writeToFile( FILE* output_file, const char* prefix ) c
 		fprintf( output_file,"%sval[%d] = %23.16e\n",prefix,(int)i,val[i] );
 	}
 
+	if ( ferror( output_file ) != 0 )
+		return THROWERROR( RET_UNABLE_TO_WRITE_FILE );
+
 	return SUCCESSFUL_RETURN;
 }
 
-- 
2.43.0


From 66de2200d1e2bda7073205c02deee1d8fad5e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 38/55] fix: SubjectTo and Indexlist are initialised even if
 created with a negative size

---
 src/Indexlist.cpp | 3 +++
 src/SubjectTo.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..4ddd1c1 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -64,6 +64,9 @@ Indexlist::Indexlist( int_t n )
 	number = 0;
 	iSort  = 0;
 
+	length = 0;
+	physicallength = 0;
+
 	init( n );
 }
 
diff --git a/src/SubjectTo.cpp b/src/SubjectTo.cpp
index 846786a..834260f 100644
--- a/src/SubjectTo.cpp
+++ b/src/SubjectTo.cpp
@@ -64,6 +64,10 @@ SubjectTo::SubjectTo( int_t _n )
 	type   = 0;
 	status = 0;
 
+	n = 0;
+	noLower = BT_TRUE;
+	noUpper = BT_TRUE;
+
 	init( _n );
 }
 
-- 
2.43.0


From cb1b4365b9a47e8671015ede2ef71c26efded535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 39/55] fix: performStep sets all three outputs describing the
 blocking constraint

---
 src/QProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d476c59..4f34ac8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5022,6 +5022,7 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	tau = 1.0;
 	BC_idx = -1;
 	BC_status = ST_UNDEFINED;
+	BC_isBound = BT_FALSE;
 
 	int_t BC_idx_tmp = -1;
 
-- 
2.43.0


From 85d26239437f759c97280596dc53e2caba80f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 40/55] fix: SQProblem::hotstart takes over only the matrices
 it has set

---
 src/SQProblem.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 8747784..31dee51 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -547,9 +547,22 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
-		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	/* only take over those matrices that have actually been set */
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
+
+	if ( dA != 0 )
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From a987ce4583051815d849efe430b98d9043f49e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 41/55] fix: SQProblem::hotstart keeps the matrices it has read
 from file

---
 src/SQProblem.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 31dee51..83b9d9d 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -231,7 +231,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( ( nC > 0 ) && ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -266,6 +266,9 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	}
 
 	/* 3) Actually perform hotstart. */
+	const SymmetricMatrix* const H_old = H;
+	const Matrix* const A_old = A;
+
 	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
@@ -280,8 +283,17 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
+
+	/* matrices that have been set refer to (and own from now on) the data just read */
+	if ( A != A_old )
+		A->doFreeMemory( );
+	else
+		delete[] A_new;
+
+	if ( H != H_old )
+		H->doFreeMemory( );
+	else
+		delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From e97081cf95e846eba8e013c3381b1e03bb2a49bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 42/55] fix: Ma57SparseSolver::factorize releases an earlier
 factorisation

---
 src/SparseSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 39b30c0..4d8cf7b 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -804,9 +804,11 @@ returnValue Ma57SparseSolver::factorize( )
 	double lfact_factor = 10.0; /* This could be an option */
 
 	lfact_ma57 = (fint_t)(lfact_factor * (double)(info_ma57[8]));
+	delete [] fact_ma57;
 	fact_ma57 = new double[lfact_ma57];
 
 	lifact_ma57 = (fint_t)(lfact_factor * (double)(info_ma57[9]));
+	delete [] ifact_ma57;
 	ifact_ma57 = new fint_t[lifact_ma57];
 
     /*******************************************
@@ -827,6 +829,7 @@ returnValue Ma57SparseSolver::factorize( )
 	rank = info_ma57[24];   /* Rank of matrix */
 
 	/* Read pivot sequence (see MA57UD source code) */
+	delete [] pivots;
 	pivots = new fint_t[dim];
 	fint_t nrows, ncols;
 	fint_t nblk = ifact_ma57[2];
-- 
2.43.0


From fb5e9fc0fa53372e9e4e43ac3681da1faecc04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 43/55] fix: Ma27SparseSolver::factorize releases an earlier
 factorisation

---
 src/SparseSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 4d8cf7b..ec75445 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -303,8 +303,10 @@ returnValue Ma27SparseSolver::factorize( )
 	/* Overstimation factor for LIW (20% recommended in MA27 documentation) */
 	const double LiwFact = 2.0;   /* This is 200% overestimation */
 	liw_ma27 = (fint_t)(LiwFact*(double(2*numNonzeros+3*dim+1)));
+	delete [] iw_ma27;
 	iw_ma27 = new fint_t[liw_ma27];
 
+	delete [] ikeep_ma27;
 	ikeep_ma27 = new fint_t[3*dim];
 
 	fint_t iflag_ma27 = 0;
-- 
2.43.0


From c965e5e828538f51e6bfeab61cec9b85d16bb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 44/55] fix: updateActivitiesForHotstart accepts missing bounds

---
 src/QProblem.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4f34ac8..061f4f5 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1875,7 +1875,11 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		/* missing bounds are infinite */
+		const real_t lb_i = ( lb_new != 0 ) ? lb_new[i] : -INFTY;
+		const real_t ub_i = ( ub_new != 0 ) ? ub_new[i] : INFTY;
+
+		if ( lb_i <= -INFTY && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1883,7 +1887,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( ub_i >= INFTY && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1891,12 +1895,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( lb_i > -INFTY && lb[i] <= -INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ub_i < INFTY && ub[i] >= INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
-- 
2.43.0


From 873bbeebe81f99cf43c09ecd996f0621b517b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 45/55] fix: sparse matrices return whole rows and columns for
 any factor

---
 src/Matrices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index bed6cc3..39ce7e2 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -902,13 +902,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
@@ -1677,13 +1677,13 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From a4182b979fbbbc68496b1b0430e33bc189cf3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 46/55] fix: SparseMatrixRow::getCol returns a whole column

---
 src/Matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 39ce7e2..e1d4588 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1671,7 +1671,7 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
-- 
2.43.0


From cab378fbc5b70759f0c192a26c7181e8e5020956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 47/55] fix: getKktViolation checks for a missing QP before
 using it

---
 src/SolutionAnalysis.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 74ea70e..99b466e 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,12 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +169,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
-- 
2.43.0


From 207d17284a3d39cb500c122c7ba61bf457e22191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 48/55] fix: setupAuxiliaryWorkingSet restores the options also
 if it fails

---
 src/QProblem.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 061f4f5..5c5d611 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2445,11 +2445,17 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		{
 			if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
 				if ( removeConstraint( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 
 			if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
 				if ( removeConstraint( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 		}
 
 		/* 2) Remove all active bounds that shall be inactive AND
@@ -2458,11 +2464,17 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		{
 			if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
 				if ( removeBound( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 
 			if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
 				if ( removeBound( i,updateCholesky,BT_FALSE,options.enableNZCTests ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 		}
 	}
 
@@ -2481,7 +2493,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
             // assert ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE );
 			/* No check for linear independence necessary. */
 			if ( addBound( i,ST_LOWER,updateCholesky ) != SUCCESSFUL_RETURN ) // was auxiliaryBounds->getStatus( i )
+			{
+				options.enableFullLITests = was_fulli;
 				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+			}
 		}
 	}
 
@@ -2499,7 +2514,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			if ( addConstraint_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 			{
 				if ( addConstraint( i,ST_LOWER,updateCholesky ) != SUCCESSFUL_RETURN )  // was auxiliaryConstraints->getStatus( i )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 			}
 			else
 			{
@@ -2520,7 +2538,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			if ( addBound_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 			{
 				if ( addBound( i,auxiliaryBounds->getStatus( i ),updateCholesky ) != SUCCESSFUL_RETURN )
+				{
+					options.enableFullLITests = was_fulli;
 					return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+				}
 			}
 		}
 	}
@@ -2538,7 +2559,10 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 				if ( addConstraint_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
 				{
 					if ( addConstraint( i,auxiliaryConstraints->getStatus( i ),updateCholesky ) != SUCCESSFUL_RETURN )
+					{
+						options.enableFullLITests = was_fulli;
 						return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+					}
 				}
 			}
 		}
-- 
2.43.0


From 7943253877b2703009350bb41b607bcbdb578900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 49/55] fix: getNumber refuses the position after the last
 number

---
 include/qpOASES/Indexlist.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpOASES/Indexlist.ipp b/include/qpOASES/Indexlist.ipp
index 178252f..f716a21 100644
--- a/include/qpOASES/Indexlist.ipp
+++ b/include/qpOASES/Indexlist.ipp
@@ -47,7 +47,7 @@ BEGIN_NAMESPACE_QPOASES
 inline int_t Indexlist::getNumber( int_t physicalindex ) const
 {
 	/* consistency check */
-	if ( ( physicalindex < 0 ) || ( physicalindex > length ) )
+	if ( ( physicalindex < 0 ) || ( physicalindex >= length ) )
 		return -RET_INDEXLIST_OUTOFBOUNDS;
 
 	return number[physicalindex];
-- 
2.43.0


From c71e1441c4385e518c6748734ceae7402237b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 50/55] fix: index lists cope with numbers smaller than all
 their numbers

---
 src/Indexlist.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index 4ddd1c1..44f4310 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -160,6 +160,11 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+
+	/* list is empty or contains larger numbers only */
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -191,9 +196,13 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
-	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
+	int_t iSidx = iSort[idx];
+
 	if ( number[iSidx] != removenumber )
 		return SUCCESSFUL_RETURN;
 
@@ -223,6 +232,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 2eef1f8fd90b12823efd7eb2de594e555204a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 51/55] fix: a QP is not solved once its hotstart stopped
 before the first iteration

---
 src/QProblemB.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 05bb6df..6aad82d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2459,6 +2459,9 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
 
+	if ( status == QPS_SOLVED )
+		status = QPS_HOMOTOPYQPSOLVED;
+
 
 	/* II) MAIN HOMOTOPY LOOP */
 	for( iter=nWSRperformed; iter<nWSR; ++iter )
-- 
2.43.0


From 7040a554682286d57ce951dd85dab6954291b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 52/55] fix: an infeasible QP does not count as solved

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6aad82d..e3699bd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1941,6 +1941,10 @@ returnValue QProblemB::setInfeasibilityFlag(	returnValue returnvalue,
 {
 	infeasible = BT_TRUE;
 
+	/* the current iterate solves the previous QP only */
+	if ( status == QPS_SOLVED )
+		status = QPS_HOMOTOPYQPSOLVED;
+
 	if ( ( doThrowError == BT_TRUE ) || ( options.enableFarBounds == BT_FALSE ) )
 		THROWERROR( returnvalue );
 
-- 
2.43.0


From 73919848bbdbed0d3d68b2c82b1765eb7c4628ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 53/55] fix: regularisation does not change the Hessian array
 of the caller

---
 src/Matrices.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index e1d4588..368b48b 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -573,6 +573,17 @@ returnValue DenseMatrix::transTimes(	const Indexlist* const irows, const Indexli
 returnValue DenseMatrix::addToDiag( real_t alpha )
 {
 	int_t i;
+
+	/* do not change values that belong to the caller */
+	if ( needToFreeMemory( ) == BT_FALSE )
+	{
+		real_t* val_new = new real_t[nRows*leaDim];
+		for (i = 0; i < nRows; i++)
+			memcpy( &(val_new[i*leaDim]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
+		val = val_new;
+		doFreeMemory( );
+	}
+
 	for (i = 0; i < nRows && i < nCols; i++)
 		val[i*(leaDim+1)] += alpha;
 
-- 
2.43.0


From c8fdf2f9c14f3d5f728d22d4a0cf9926fbbc464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 54/55] fix: only lower or upper is accepted as status of an
 entry that becomes active

---
 src/Bounds.cpp      | 4 ++++
 src/Constraints.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/Bounds.cpp b/src/Bounds.cpp
index e10faed..77c4bc2 100644
--- a/src/Bounds.cpp
+++ b/src/Bounds.cpp
@@ -211,6 +211,10 @@ returnValue Bounds::moveFreeToFixed(	int_t number, SubjectToStatus _status
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* a bound can only become active at its lower or upper limit */
+	if ( ( _status != ST_LOWER ) && ( _status != ST_UPPER ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* Move index from indexlist of free variables to that of fixed ones. */
 	if ( this->removeIndex( this->getFree( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
diff --git a/src/Constraints.cpp b/src/Constraints.cpp
index bdf9759..de31cf1 100644
--- a/src/Constraints.cpp
+++ b/src/Constraints.cpp
@@ -210,6 +210,10 @@ returnValue Constraints::moveInactiveToActive(	int_t number, SubjectToStatus _st
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* a constraint can only become active at its lower or upper limit */
+	if ( ( _status != ST_LOWER ) && ( _status != ST_UPPER ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* Move index from indexlist of inactive constraints to that of active ones. */
 	if ( this->removeIndex( this->getInactive( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
-- 
2.43.0


From 478e7c72fff5a25a20d5b22997ef02bf3314b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:59 +0000
Subject: [PATCH 55/55] fix: report number of working set recalculations if
 refactorisation fails

---
 src/QProblem.cpp  | 6 ++++++
 src/QProblemB.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5c5d611..45342fc 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1696,6 +1696,12 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 			{
 				delete[] delta_yAC; delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 				delete[] delta_ub; delete[] delta_lb; delete[] delta_ubA; delete[] delta_lbA; delete[] delta_g;
+
+				/* Assign number of working set recalculations and stop runtime measurement. */
+				nWSR = iter+1;
+				if ( cputime != 0 )
+					*cputime = getCPUtime( ) - starttime;
+
 				return returnvalue;
 			}
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e3699bd..f5ea24a 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2610,6 +2610,12 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 			{
 				delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 				delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
+
+				/* Assign number of working set recalculations and stop runtime measurement. */
+				nWSR = iter+1;
+				if ( cputime != 0 )
+					*cputime = getCPUtime( ) - starttime;
+
 				return returnvalue;
 			}
 		}
-- 
2.43.0

